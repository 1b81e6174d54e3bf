// The font converter under simulated file systems, memory shortage and crashes (F01, F02, F03).
//
// One run is a history of converter executions in one directory. Every execution is a process of its own, which
// maps a plan of faults (interpose.cpp) drawn beforehand. An execution without faults in a directory of its own,
// the reference, says what the files have to contain.
#include "fonts.h"
#include "plan.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <iconv.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using namespace fontsim;

namespace
{
using Files = std::map<std::string, std::string>;

// ---------------------------------------------------------------- scratch directory
std::string base;
pid_t basePid;
std::vector<std::pair<std::string, char>> walk(const std::string &dir, const std::string &rel = "")
{
    std::vector<std::pair<std::string, char>> r;
    DIR* d = opendir((dir + "/" + rel).c_str());
    if (!d) return r;
    std::vector<std::string> names;
    while (auto e = readdir(d)) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto &n: names)
    {
        if (n == "." || n == "..") continue;
        const std::string p = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat((dir + "/" + p).c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode))
        {
            auto sub = walk(dir, p);
            r.insert(r.end(), sub.begin(), sub.end());
            r.push_back({ p, 'd' });
        }
        else
        {
            r.push_back({ p, S_ISREG(st.st_mode) ? 'f' : 'o' });
        }
    }
    return r;
}
void empty(const std::string &dir)
{
    for (auto &[p, k]: walk(dir)) if (k == 'd') rmdir((dir + "/" + p).c_str()); else unlink((dir + "/" + p).c_str());
}
void removeBase()
{
    if (base.empty() || basePid != getpid()) return;
    empty(base);
    rmdir(base.c_str());
}
std::string slurp(const std::string &p)
{
    std::string r;
    const int fd = open(p.c_str(), O_RDONLY | O_NONBLOCK);
    if (fd < 0) return r;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n);
    close(fd);
    return r;
}
void spill(const std::string &p, const std::string &d)
{
    const int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { perror(p.c_str()); _exit(3); }
    size_t o = 0;
    while (o < d.size())
    {
        const ssize_t n = write(fd, d.data() + o, d.size() - o);
        if (n <= 0) { perror(p.c_str()); _exit(3); }
        o += (size_t)n;
    }
    close(fd);
}
Files snapshot(const std::string &dir)
{
    Files f;
    for (auto &[p, k]: walk(dir))
    {
        if (p.rfind("fonts/", 0) == 0 || k == 'd') continue;
        f[p] = k == 'f' ? slurp(dir + "/" + p) : std::string("\0special", 8);
    }
    return f;
}
u64 digest(const std::string &s)
{
    u64 h = 0xcbf29ce484222325ull;
    for (unsigned char c: s) h = (h ^ c) * 0x100000001b3ull;
    return h;
}

// ---------------------------------------------------------------- one execution
struct Result
{
    bool exited = false, killed = false, timeout = false;
    int status = 0, signal = 0;
    std::string out, err;
    double cpu = 0;
};
Plan* plan;
int planFd = -1;

Request* request;
int outFd, errFd, askFd, answerFd;
pid_t zygoteOf;

// The process all executions are forked from: it has just started and never runs the converter itself.
void startZygote()
{
    static char self[4096];
    if (!self[0] && readlink("/proc/self/exe", self, sizeof self - 1) <= 0) { perror("readlink"); _exit(3); }
    planFd = memfd_create("plan", 0);
    outFd = memfd_create("out", 0);
    errFd = memfd_create("err", 0);
    int ask[2], answer[2];
    if (planFd < 0 || outFd < 0 || errFd < 0 || ftruncate(planFd, sizeof(Shared)) != 0 || pipe(ask) != 0 || pipe(answer) != 0) { perror("memfd"); _exit(3); }
    auto shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, planFd, 0);
    if (shared == MAP_FAILED) { perror("mmap"); _exit(3); }
    plan = &shared->plan;
    request = &shared->request;
    char envPlan[100];
    snprintf(envPlan, sizeof envPlan, "SIM_FONT_PLAN=%d %d %d %d %d", planFd, outFd, errFd, ask[0], answer[1]);
    static char trace[] = "SIM_FONT_BACKTRACE=1", name[] = "zygote";
    char* env[] = { envPlan, getenv("SIM_FONT_BACKTRACE") ? trace : nullptr, nullptr };   // for looking into crashes by hand
    char* av[] = { name, nullptr };
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int s = 1; s < 32; ++s) signal(s, SIG_DFL);
        sigset_t none;
        sigemptyset(&none);
        sigprocmask(SIG_SETMASK, &none, nullptr);
        const int in = open("/dev/null", O_RDONLY);
        dup2(in, 0);
        close(ask[1]);
        close(answer[0]);
        personality(ADDR_NO_RANDOMIZE);
        execve(self, av, env);
        _exit(96);
    }
    close(ask[0]);
    close(answer[1]);
    askFd = ask[1];
    answerFd = answer[0];
    zygoteOf = getpid();
}

Plan &freshPlan()
{
    if (!plan || zygoteOf != getpid()) startZygote();
    memset(plan, 0, sizeof *plan);
    plan->space = UINT64_MAX;
    plan->fill = 0xA5;
    plan->clock = 1700000000000000;
    plan->random = 1;
    plan->pid = 4242;
    return *plan;
}

struct World { u64 fileLimit = 0; bool stdoutFull = false; unsigned cpuLimit = 8; };

bool readAll(int fd, void* p, size_t n)
{
    for (size_t k = 0; k < n;)
    {
        const ssize_t r = read(fd, (char*)p + k, n - k);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        k += (size_t)r;
    }
    return true;
}
Result execute(const std::string &dir, const std::vector<std::string> &args, const World &w)
{
    snprintf(request->dir, sizeof request->dir, "%s", dir.c_str());
    request->argc = 0;
    size_t used = 0;
    for (auto &a: args)
    {
        if (used + a.size() + 1 > sizeof request->text || request->argc >= 63) { fprintf(stderr, "command line too long\n"); _exit(3); }
        request->arg[request->argc++] = (u32)used;
        memcpy(request->text + used, a.c_str(), a.size() + 1);
        used += a.size() + 1;
    }
    request->fileLimit = w.fileLimit;
    request->cpuLimit = w.cpuLimit;
    request->stdoutFull = w.stdoutFull;
    for (int fd: { outFd, errFd })
        if (ftruncate(fd, 0) != 0 || lseek(fd, 0, SEEK_SET) != 0) { perror("memfd"); _exit(3); }
    Result r;
    int32_t pid = 0;
    Reply reply {};
    while (write(askFd, "x", 1) < 0 && errno == EINTR) { }
    bool answered = readAll(answerFd, &pid, sizeof pid);
    if (answered)
    {
        pollfd p { answerFd, POLLIN, 0 };
        int waited = 0;
        // the interval timer of the simulator interrupts poll
        while (waited < 240)
        {
            const int n = poll(&p, 1, 500);
            if (n > 0) break;
            if (n == 0) ++waited;
        }
        if (waited >= 240) { r.timeout = true; kill(pid, SIGKILL); }
        answered = readAll(answerFd, &reply, sizeof reply);
    }
    if (!answered) { fprintf(stderr, "the process that forks the executions is gone\n"); _exit(3); }
    const int st = reply.status;
    r.cpu = reply.cpu;
    r.exited = WIFEXITED(st);
    r.status = r.exited ? WEXITSTATUS(st) : 0;
    r.signal = r.exited ? 0 : WTERMSIG(st);
    if (r.cpu > 0.5) probe(r.cpu > 2 ? r.cpu > 4 ? "converter took more than 4 s" : "converter took more than 2 s" : "converter took more than 0.5 s");
    if (r.signal == SIGXCPU || (r.signal == SIGKILL && r.cpu > w.cpuLimit - 1)) r.timeout = true;
    if (plan->runaway) r.timeout = true;
    if (plan->toolchain) { r.killed = true; fault("libstdc++ crashed on a failing allocation"); }
    if (!r.timeout && r.signal == SIGKILL)
        for (u32 i = 0; i < plan->faults; ++i)
            if (plan->fault[i].act >= KillBefore && plan->fault[i].fired) r.killed = true;
    auto text = [](int fd) {
        char b[2000];
        const ssize_t n = pread(fd, b, sizeof b, 0);
        return std::string(b, n > 0 ? (size_t)n : 0);
    };
    r.out = text(outFd);
    r.err = text(errFd);
    if (getenv("SIM_FONT_BACKTRACE") && r.signal && !r.killed) fputs(r.err.c_str(), stderr);
    if (!plan->started || r.status == 96 || r.status == 97) { fprintf(stderr, "the simulated process did not start (status %d, signal %d)\n", r.status, r.signal); _exit(3); }
    return r;
}

// ---------------------------------------------------------------- configurations
struct FontFile
{
    std::string path, data;
    enum Kind { Missing, Good, Damaged, Useless, Directory } kind = Good;
    bool bdf = false;
    BdfFont model;
};
enum Expect { MustSucceed, MustFail, Either };
struct Conf
{
    std::shared_ptr<FontFile> font;
    std::vector<std::string> args;
    std::string encoding;
    bool binary = false;
    bool mapFails = false;
    bool usage = false; // may end with the usage text, which goes to standard output
    Expect expect = Either;
    const char* why = "";
    std::string dir;    // where the output goes
    int size = 0, dpi = 0;
};
struct Reference
{
    Result r;
    Files files;
    u32 count[OpCount] = {};
    u32 total = 0;
    bool stable = true;
};

void place(const std::string &dir, const FontFile &f)
{
    const std::string p = dir + "/" + f.path;
    if (f.kind == FontFile::Missing) { unlink(p.c_str()); rmdir(p.c_str()); return; }
    if (f.kind == FontFile::Directory) { unlink(p.c_str()); mkdir(p.c_str(), 0755); return; }
    rmdir(p.c_str());
    spill(p, f.data);
}
void prepareDir(const std::string &dir)
{
    mkdir(dir.c_str(), 0755);
    for (auto d: { "/fonts", "/out", "/tool" }) mkdir((dir + d).c_str(), 0755);
}

std::string joined(const Conf &c)
{
    std::string s;
    for (auto &a: c.args) s += (s.empty() ? "" : " ") + (a.empty() || a.find(' ') != a.npos ? "\"" + a + "\"" : a);
    return s;
}

// What a run without faults gives. Executed twice with different contents of fresh memory.
const Reference &reference(const Conf &c)
{
    static std::map<u64, std::unique_ptr<Reference>> cache;
    const u64 key = mix(mix(digest(joined(c)), digest(c.font->data)), mix((u64)c.font->kind, c.mapFails));
    auto &slot = cache[key];
    if (slot) return *slot;
    if (cache.size() > 3000)
    {
        cache.clear();
        return reference(c);
    }
    auto ref = std::make_unique<Reference>();
    const std::string dir = base + "/ref";
    for (int i = 0; i < 2; ++i)
    {
        prepareDir(dir);
        empty(dir);
        prepareDir(dir);
        place(dir, *c.font);
        auto &p = freshPlan();
        snprintf(p.font, sizeof p.font, "%s", c.font->path.c_str());
        p.mapFails = c.mapFails;
        p.fill = i ? 0x00 : 0xA5;
        p.clock += (u64)i * 40000000123456;
        p.random += (u64)i;
        p.pid += (u32)i * 999;
        World w;
        w.cpuLimit = 8;    // a hundred times of what it takes
        auto r = execute(dir, c.args, w);
        auto files = snapshot(dir);
        if (i == 0)
        {
            ref->r = r;
            ref->files = files;
            memcpy(ref->count, p.count, sizeof p.count);
            ref->total = p.total;
            if (r.timeout) break;
        }
        else
        {
            ref->stable = r.status == ref->r.status && r.signal == ref->r.signal && files == ref->files;
        }
    }
    slot = std::move(ref);
    return *slot;
}

// ---------------------------------------------------------------- completeness of fault-free output, from the font alone
std::vector<u32> codes(const std::string &encoding)
{
    std::vector<u32> r;
    const int last = encoding == "ASCII" ? '~' : 0xFF;
    for (int c = 0x20; c <= last; c = c == '~' ? 0xA0 : c + 1) r.push_back((u32)c);
    return r;
}
std::string stemOf(const Conf &c)
{
    auto n = c.font->path.substr(c.font->path.rfind('/') + 1);
    n = n.substr(0, n.rfind('.'));
    return n + std::to_string(c.size) + "pt" + (c.encoding == "ASCII" ? "7" : "8") + "b";
}
void checkComplete(const Conf &c, const Reference &ref)
{
    if (!c.font->bdf || c.font->kind != FontFile::Good || (c.encoding != "ASCII" && c.encoding != "ISO-8859-1")) return;
    std::string bits;
    std::vector<const Glyph*> glyphs;
    for (u32 code: codes(c.encoding))
    {
        auto i = c.font->model.glyphs.find(code);
        if (i == c.font->model.glyphs.end()) return;
        auto &g = i->second;
        glyphs.push_back(&g);
        unsigned acc = 0;
        int n = 0;
        for (auto &row: g.rows)
            for (bool b: row)
            {
                acc = acc * 2 + b;
                if (++n == 8) { bits += (char)acc; acc = 0; n = 0; }
            }
        if (n) bits += (char)(acc << (8 - n));
    }
    const std::string stem = c.dir + stemOf(c);
    auto get = [&](const std::string &n) -> const std::string & {
        auto i = ref.files.find(n);
        static const std::string none;
        if (i == ref.files.end()) fail("F01", "missing-output", "%s succeeds without faults but leaves no %s", joined(c).c_str(), n.c_str());
        return i == ref.files.end() ? none : i->second;
    };
    if (c.binary)
    {
        const auto &b = get(stem + "Bitmaps.bin");
        const auto &g = get(stem + "Glyphs.bin");
        if (b != bits)
            fail("F01", "incomplete-bitmaps", "%s: without faults the bitmaps file has %zu bytes instead of the %zu of the font, or others", joined(c).c_str(), b.size(), bits.size());
        if (g.size() != glyphs.size() * 7)
            fail("F01", "incomplete-glyphs", "%s: without faults the glyphs file has %zu bytes for %zu glyphs", joined(c).c_str(), g.size(), glyphs.size());
        size_t off = 0;
        for (size_t i = 0; i < glyphs.size() && g.size() == glyphs.size() * 7; ++i)
        {
            const u8* d = (const u8*)g.data() + 7 * i;
            if ((d[0] | d[1] << 8) != (int)(off & 0xFFFF) || d[2] != glyphs[i]->width || d[3] != glyphs[i]->height)
                fail("F01", "incomplete-glyphs", "%s: without faults glyph %zu reads offset %d size %dx%d instead of %zu %dx%d", joined(c).c_str(), i, d[0] | d[1] << 8, d[2], d[3],
                     off, glyphs[i]->width, glyphs[i]->height);
            off += ((size_t)glyphs[i]->width * (size_t)glyphs[i]->height + 7) / 8;
        }
        return;
    }
    const auto &h = get(stem + ".h");
    // the numbers between the braces of the bitmaps array, whatever their layout
    const auto open1 = h.find('{'), close1 = h.find('}');
    std::string got;
    if (open1 != std::string::npos && close1 != std::string::npos)
        for (size_t p = h.find("0x", open1); p != std::string::npos && p < close1; p = h.find("0x", p + 2)) got += (char)strtoul(h.c_str() + p, nullptr, 16);
    if (got != bits)
        fail("F01", "incomplete-bitmaps", "%s: without faults the header has %zu bitmap bytes instead of the %zu of the font, or others", joined(c).c_str(), got.size(), bits.size());
    size_t rows = 0, at = h.find("GFXglyph");
    const size_t end = h.find("GFXfont");
    if (at != std::string::npos && end != std::string::npos)
        for (at = h.find("{ ", h.find('{', at) + 1); at != std::string::npos && at < end; ++rows)
        {
            // one glyph: offset, size, advance, offsets
            int o, w2, h2;
            if (sscanf(h.c_str() + at, "{ %d , { %d , %d }", &o, &w2, &h2) != 3 || rows >= glyphs.size() || w2 != glyphs[rows]->width || h2 != glyphs[rows]->height) break;
            const auto nl = h.find('\n', at);
            at = nl == std::string::npos ? nl : h.find("{ ", nl);
        }
    if (rows != glyphs.size())
        fail("F01", "incomplete-glyphs", "%s: without faults the header describes %zu of %zu glyphs", joined(c).c_str(), rows, glyphs.size());
    if (end == std::string::npos || h.find("};", end) == std::string::npos)
        fail("F01", "incomplete-header", "%s: without faults the header lacks the font structure", joined(c).c_str());
}

// ---------------------------------------------------------------- drawing
std::shared_ptr<FontFile> drawFont(u32 n)
{
    // fonts are drawn from a small family so that their references can be reused
    auto f = std::make_shared<FontFile>();
    const bool ttf = chance(1, 3);
    const u32 seed = choose(thorough() ? 40 : 6);
    f->bdf = !ttf;
    if (ttf)
    {
        f->data = makeTtf(seed, chance(1, 3) ? 0x2FF : 0x17F);
    }
    else
    {
        static const int px[] = { 8, 5, 12, 19, 33 };
        f->model = makeBdf(seed, pick(px), chance(1, 2) ? 0x17F : 0xFF);
        f->data = f->model.file();
    }
    static const char* const names[] = { "fonts/a", "fonts/Sans", "fonts/with.dot", "fonts/x y" };
    f->path = std::string(names[n % 4]) + (ttf ? ".ttf" : ".bdf");
    if (chance(1, 5))
    {
        switch (choose(6))
        {
        case 0: f->kind = FontFile::Missing; f->data.clear(); break;
        case 1: f->kind = FontFile::Useless; f->data.clear(); break;
        case 2: f->kind = FontFile::Directory; f->data.clear(); break;
        case 3:
        {
            f->kind = FontFile::Useless;
            const u32 len = range(1, 400), s = choose(1000);
            f->data.clear();
            for (u32 i = 0; i < len; ++i) f->data += (char)(mix(s, i) | 0x80);
            break;
        }
        case 4:
            f->kind = FontFile::Damaged;
            f->data.resize((size_t)((u64)f->data.size() * choose(1000) / 1000));
            break;
        case 5:
        {
            f->kind = FontFile::Damaged;
            const u32 k = range(1, 6);
            for (u32 i = 0; i < k; ++i)
            {
                // headers are hit more often than outlines
                const size_t at = chance(1, 2) ? choose((u32)std::min<size_t>(f->data.size(), 400)) : choose((u32)f->data.size());
                f->data[at] = (char)(chance(1, 2) ? f->data[at] ^ (1 << choose(8)) : (char)choose(256));
            }
            if (ttf && f->data.size() > 130)
            {
                // a tiny em makes every glyph gigantic, which is not wrong but takes forever
                const auto good = makeTtf(seed, 0x17F);
                const auto head = ((u32)(u8)good[12 + 16 * 2 + 10] << 8) | (u8)good[12 + 16 * 2 + 11];
                for (u32 i: { head + 18, head + 19 }) if (i < f->data.size()) f->data[i] = good[i];
            }
            break;
        }
        }
        probe(f->kind == FontFile::Missing ? "font missing" : f->kind == FontFile::Directory ? "font is a directory" : f->kind == FontFile::Useless ? "font empty or garbage" : "font damaged");
    }
    return f;
}

bool encodingKnown(const std::string &e)
{
    iconv_t a = iconv_open("UCS-4LE", e.c_str()), b = iconv_open("UTF-8", e.c_str());
    const bool ok = a != (iconv_t)-1 && b != (iconv_t)-1;
    if (a != (iconv_t)-1) iconv_close(a);
    if (b != (iconv_t)-1) iconv_close(b);
    return ok;
}

Conf drawConf(const std::shared_ptr<FontFile> &f)
{
    Conf c;
    c.font = f;
    static const char* const tools[] = { "tool/gfx-font-converter", "./tool/gfx-font-converter" };
    const char* tool = pick(tools);
    c.args = { tool };
    c.binary = chance(1, 2);
    static const char* const good[] = { "ASCII", "ISO-8859-1", "ISO-8859-5", "CP1251", "KOI8-R", "ISO-8859-15" };
    const u32 e = choose(12);
    std::string enc = e < 10 ? good[e % 6] : e == 10 ? pick({ "UTF-8", "SHIFT_JIS", "UTF-16", "EUC-JP", "GB18030", "UTF-7", "CP437" }) : pick({ "NO-SUCH-CODE", "8859", "-", "ASCII//X", "?" });
    std::vector<std::vector<std::string>> opts;
    opts.push_back({ "-f", f->path });
    if (enc != "ASCII" || chance(1, 3))
    {
        std::string shown = enc;
        if (e < 10 && chance(1, 4)) for (auto &ch: shown) ch = (char)tolower(ch);
        opts.push_back({ "-e", shown });
    }
    c.encoding = enc;
    c.size = 12;
    c.dpi = 141;
    bool sizeFits = true;
    if (f->bdf)
    {
        c.dpi = 72;
        c.size = f->model.pixels;
        if (chance(1, 12)) { c.size = (int)range(1, 60); sizeFits = c.size == f->model.pixels; }
        opts.push_back({ "-d", "72" });
        opts.push_back({ "-s", std::to_string(c.size) });
    }
    else
    {
        static const int sizes[] = { 12, 5, 9, 20, 33 };
        if (f->kind == FontFile::Damaged)
        {
            // outlines may reach 32 times as far as they should
            c.size = 5;
            c.dpi = 72;
            opts.push_back({ "-s", "5" });
            opts.push_back({ "-d", "72" });
        }
        else if (chance(2, 3)) { c.size = pick(sizes); opts.push_back({ "-s", std::to_string(c.size) }); }
        if (f->kind != FontFile::Damaged && chance(1, 2)) { c.dpi = pick({ 72, 100, 141 }); opts.push_back({ "-d", std::to_string(c.dpi) }); }
    }
    if (c.binary) opts.push_back({ "-b" });
    switch (choose(5))
    {
    case 0: opts.push_back({ "-o", "out" }); c.dir = "out/"; break;
    case 1: opts.push_back({ "-o", "out/" }); c.dir = "out/"; break;
    case 2: opts.push_back({ "-o", "." }); c.dir = ""; break;
    case 3: c.dir = "tool/"; break;
    case 4: opts.push_back({ "-o", "no/such/dir" }); c.dir = "tool/"; break;
    }
    bool odd = false, malformed = false;
    if (chance(1, 15))
    {
        // command lines a user gets wrong
        const bool size = chance(1, 2);
        switch (choose(7))
        {
        case 0: odd = true; opts.push_back({ size ? "-s" : "-d", pick({ "0", "-1", "1", "1000000", "2147483647", "-2147483648" }) }); break;   // (valid but huge bitmaps would only take long)
        case 1: odd = true; opts.push_back({ "-x" }); break;
        case 2: odd = true; opts.push_back({ "-h" }); break;
        case 3: odd = true; opts.push_back({ "-s" }); break;
        default:
        {
            static const char* const values[] = { "abc", "", "x", "99999999999", "-2147483649", "12x", "7pt", "1 2", "-", "+", "0x10", "1e2", "5,5", "1.5", "12 " };
            malformed = true;
            opts.push_back({ size ? "-s" : "-d", pick(values) });
            break;
        }
        }
        probe(malformed ? "malformed number" : "odd command line");
    }
    for (u32 i = (u32)opts.size(); !odd && i > 1; --i) std::swap(opts[i - 1], opts[i - 1 - choose(i)]);
    for (auto &o: opts) for (auto &a: o) c.args.push_back(a);
    c.mapFails = chance(1, 4);
    const bool known = e < 10 ? true : encodingKnown(enc);
    if (odd) { c.usage = true; c.expect = Either; c.encoding = "?"; }
    else if (malformed) { c.expect = MustFail; c.why = "a number on the command line is malformed"; }
    else if (f->kind == FontFile::Missing) { c.expect = MustFail; c.why = "the font file is missing"; }
    else if (f->kind == FontFile::Directory) { c.expect = MustFail; c.why = "the font file is a directory"; }
    else if (f->kind == FontFile::Useless) { c.expect = MustFail; c.why = "the font file is not a font"; }
    else if (!known) { c.expect = MustFail; c.why = "the encoding is unknown"; }
    else if (f->kind == FontFile::Good && e < 10 && sizeFits) c.expect = MustSucceed;
    return c;
}

void drawFaults(Plan &p, World &w, const Reference &ref)
{
    auto aim = [&](Op op) { return choose(ref.count[op] + (op == Alloc ? 20 : 1)); };
    const u32 n = chance(1, 3) ? 2 : 1;
    for (u32 k = 0; k < n; ++k)
    {
        Fault f {};
        f.count = 1;
        switch (choose(17))
        {
        case 0: // the device fills up
            p.space = choose(ref.r.exited && ref.r.status == 0 ? [&] {
                size_t t = 0;
                for (auto &x: ref.files) t += x.second.size();
                return (u32)t + 1;
            }() : 1000);
            continue;
        case 1:
        case 2:
            f.op = WriteOut; f.act = Error; f.err = pick({ ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EAGAIN });
            f.first = aim(WriteOut);
            f.count = f.err == EINTR ? range(1, 4) : chance(1, 2) ? 1 : 0;
            break;
        case 3:
            f.op = WriteOut; f.act = Short; f.amount = choose(1000); f.first = aim(WriteOut); f.count = choose(4);
            break;
        case 4:
        case 5:
            f.op = CloseOut; f.act = Error; f.err = pick({ EIO, ENOSPC, EDQUOT, EINTR }); f.first = aim(CloseOut);
            f.amount = f.err == EINTR ? 0 : choose(1001);
            break;
        case 6:
            f.op = OpenOut; f.act = Error; f.err = pick({ ENOSPC, EACCES, EROFS, EMFILE, EIO, EINTR, ENOMEM, EISDIR }); f.first = aim(OpenOut); f.count = chance(1, 2) ? 1 : 0;
            break;
        case 7:
            f.op = pick({ OpenFont, StatFont, MapFont, CloseFont }); f.act = Error; f.err = pick({ EIO, EACCES, EMFILE, ENOMEM, EINTR, ENOENT }); f.first = aim((Op)f.op);
            break;
        case 8:
            f.op = ReadFont; f.act = Error; f.err = pick({ EIO, 0, EINTR, ENOMEM }); f.first = aim(ReadFont); f.count = f.err == EINTR ? range(1, 4) : 1;
            break;
        case 9:
            f.op = ReadFont; f.act = Short; f.amount = choose(1000); f.first = aim(ReadFont); f.count = choose(4);
            break;
        case 10:
        case 11:
            f.op = Alloc; f.act = Error; f.first = aim(Alloc); f.count = pick({ 1, 0, 3 }); f.err = ENOMEM;
            break;
        case 12:
        case 13:
            f.op = pick({ WriteOut, WriteOut, OpenOut, CloseOut, OpenFont, Alloc, NameOut });
            f.act = pick({ KillBefore, KillAfter, KillMid });
            if (f.act == KillMid && f.op != WriteOut) f.act = KillAfter;
            if (f.op == Alloc) f.act = KillBefore;
            f.first = aim((Op)f.op);
            f.amount = choose(1001);
            break;
        case 15:
        case 16:
            // FreeType: out of memory, invalid argument, file format, outline, stream read, raster overflow, size
            f.op = Library; f.act = Error; f.err = pick({ 0x40, 0x06, 0x03, 0x14, 0x55, 0x62, 0x17 }); f.first = aim(Library); f.count = chance(1, 2) ? 1 : 0;
            break;
        case 14:
            if (chance(1, 2)) w.stdoutFull = true;
            else w.fileLimit = 600 + choose(30000);
            continue;
        }
        p.fault[p.faults++] = f;
    }
    p.fill = pick({ 0xA5, 0x00, 0xFF });
    p.errorTexts = chance(1, 3);
    p.clock += (u64)choose(2000000000) * 50000;
    p.random = choose(1000000);
    p.pid = range(300, 32000);
}

struct World2
{
    std::string dir;
    std::set<std::string> allowed;     // files that may lie around
};

void faultsFired(const Plan &p, const World &w, const Result &r)
{
    for (u32 i = 0; i < p.events && !r.timeout; ++i)
    {
        auto &e = p.event[i];
        logf("  op %s %u act=%s errno=%d %u/%u", opName[e.op], e.index, actName[e.act], e.err, e.done, e.bytes);
    }
    for (u32 i = 0; i < p.faults; ++i)
    {
        auto &f = p.fault[i];
        if (!f.fired) continue;
        static const char* const names[OpCount][6] = {
            { "", "output cannot be opened", "", "killed before opening output", "", "killed after opening output" },
            { "", "write error", "short write", "killed before a write", "killed within a write", "killed after a write" },
            { "", "close error, tail lost", "", "killed before closing output", "", "killed after closing output" },
            { "", "rename error", "", "killed before renaming", "", "killed after renaming" },
            { "", "font cannot be opened", "", "killed before opening the font", "", "killed after opening the font" },
            { "", "font cannot be examined", "", "", "", "" }, { "", "font cannot be mapped", "", "", "", "" },
            { "", "font read error", "short font read", "", "", "" }, { "", "font close error", "", "", "", "" },
            { "", "allocation fails", "", "killed at an allocation", "", "" },
            { "", "FreeType reports an error", "", "", "", "" } };
        const char* n = names[f.op][f.act];
        if (*n) fault(f.act == Error && f.err == EINTR && f.op != Library ? "system call interrupted" : n);
    }
    if (p.full) fault("device full");
    if (p.mapFailed) fault("font cannot be mapped");
    if (w.stdoutFull) fault("standard output full");
    if (w.fileLimit) fault("file size limit");
}

void judge(const char* when, const Conf &c, const Result &r, const Reference &ref, const std::string &dir, bool faulty, bool stdoutFull = false)
{
    const std::string cmd = joined(c);
    if (r.killed) return;
    if (r.timeout)
        fail("F03", "hang", "%s (%s) does not terminate", cmd.c_str(), when);
    if (r.signal && !r.timeout)
        fail("F03", "crash", "%s (%s) is terminated by signal %d; stderr: %s", cmd.c_str(), when, r.signal, r.err.c_str());
    if (r.exited && r.status == 0)
    {
        if (ref.r.exited && ref.r.status != 0)
            fail("F03", "unreported", "%s (%s) exits with 0, without faults it fails: %s", cmd.c_str(), when, ref.r.err.c_str());
        if (c.expect == MustFail)
            fail("F03", "unreported", "%s (%s) exits with 0 although %s", cmd.c_str(), when, c.why);
        if (ref.r.exited && ref.r.status == 0 && !dir.empty())
        {
            auto have = snapshot(dir);
            for (auto &[n, d]: ref.files)
            {
                auto i = have.find(n);
                if (faulty && (i == have.end() || i->second != d))
                    fail("F03", "unreported", "%s (%s) exits with 0 although %s does not contain what it should", cmd.c_str(), when, n.c_str());
                if (i == have.end())
                    fail("F01", "missing-output", "%s (%s) exits with 0 but there is no %s", cmd.c_str(), when, n.c_str());
                else if (i->second != d)
                    fail(faulty ? "F01" : "F02", faulty ? "wrong-output" : "wrong-output-again", "%s (%s) exits with 0 but %s has %zu bytes, should have %zu%s", cmd.c_str(), when, n.c_str(), i->second.size(), d.size(),
                         i->second.size() == d.size() ? " and differs" : "");
            }
        }
    }
    else if (r.exited)
    {
        if (r.err.empty() && !(c.usage && (r.out.rfind("Usage", 0) == 0 || stdoutFull)))
            fail("F03", "no-message", "%s (%s) exits with %d without an error message", cmd.c_str(), when, r.status);
    }
}
}

SIM_SCENARIO(font, "F01 F02 F03")
{
    if (base.empty() || basePid != getpid())
    {
        const char* t = getenv("TMPDIR");
        std::string b = std::string(t && *t ? t : "/tmp") + "/simfont-XXXXXX";
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(3); }
        base = b;
        basePid = getpid();
        atexit(removeBase);
    }
    const std::string dir = base + "/run";
    mkdir(dir.c_str(), 0755);
    empty(dir);
    prepareDir(dir);

    std::vector<std::shared_ptr<FontFile>> fonts;
    const u32 nf = range(1, 2);
    for (u32 i = 0; i < nf; ++i)
    {
        fonts.push_back(drawFont(i));
        auto &f = *fonts.back();
        logf("font %s kind=%d %zu bytes %016llx", f.path.c_str(), f.kind, f.data.size(), (unsigned long long)digest(f.data));
        place(dir, f);
    }
    std::set<std::string> allowed;
    std::vector<Conf> confs;
    const u32 nc = range(1, 3);
    for (u32 i = 0; i < nc; ++i) confs.push_back(drawConf(fonts[choose((u32)fonts.size())]));

    auto clearBlocks = [&](const Reference &ref) {
        // what stood in the way of the output is removed
        for (auto &[n, d]: ref.files)
        {
            struct stat st;
            const auto p = dir + "/" + n;
            if (lstat(p.c_str(), &st) != 0) continue;
            if (S_ISDIR(st.st_mode)) rmdir(p.c_str());
            else if (!S_ISREG(st.st_mode)) unlink(p.c_str());
        }
    };

    const u32 rounds = range(1, thorough() ? 6 : 4);
    std::set<std::string> interrupted;   // what has not been run again since it failed
    for (u32 round = 0; round < rounds; ++round)
    {
        Span span;
        Conf &c = confs[choose((u32)confs.size())];
        if (round && chance(1, 6))
        {
            // the user changes the font
            auto f = std::make_shared<FontFile>(*c.font);
            if (f->bdf && f->kind == FontFile::Good)
            {
                const u32 seed = choose(6);
                if (chance(1, 2))
                {
                    // the same sizes with other pixels
                    for (auto &[code, g]: f->model.glyphs)
                        for (size_t y = 0; y < g.rows.size(); ++y)
                            for (size_t x = 0; x < g.rows[y].size(); ++x)
                                if (mix(mix(seed, code), y * 100 + x) % 5 == 0) g.rows[y][x] = !g.rows[y][x];
                }
                else
                {
                    f->model = makeBdf(seed, f->model.pixels, 0x17F);
                }
                f->data = f->model.file();
                for (auto &x: confs) if (x.font == c.font && &x != &c) x.font = f;
                c.font = f;
                place(dir, *f);
                logf("font %s changed: %zu bytes %016llx", f->path.c_str(), f->data.size(), (unsigned long long)digest(f->data));
                probe("font changed between executions");
            }
        }
        const Reference &ref = reference(c);
        logf("round %u: %s%s", round, joined(c).c_str(), c.mapFails ? " (font not mappable)" : "");
        if (!ref.stable)
            fail("F01", "unstable", "%s gives different results without faults, depending on what fresh memory contains, the clock, the process number or random numbers", joined(c).c_str());
        judge("without faults", c, ref.r, ref, "", true);
        if (c.expect == MustSucceed && !(ref.r.exited && ref.r.status == 0))
            fail("F02", "never-succeeds", "%s fails without faults: status %d signal %d %s", joined(c).c_str(), ref.r.status, ref.r.signal, ref.r.err.c_str());
        if (c.expect == MustFail && ref.r.exited && ref.r.status == 0)
            fail("F03", "unreported", "%s succeeds although %s", joined(c).c_str(), c.why);
        if (ref.r.exited && ref.r.status == 0 && c.expect == MustSucceed) checkComplete(c, ref);
        for (auto &x: ref.files) allowed.insert(x.first);

        // what an earlier time left behind
        std::string junk;
        if (chance(1, 4) && !ref.files.empty())
        {
            auto i = ref.files.begin();
            std::advance(i, choose((u32)ref.files.size()));
            const auto p = dir + "/" + i->first;
            struct stat st;
            const bool there = lstat(p.c_str(), &st) == 0;
            switch (choose(7))
            {
            case 5:
            {
                // just as long as what is to be written, but different
                auto d = i->second;
                const u32 at = d.empty() ? 0 : choose((u32)d.size());
                for (size_t k = at; k < d.size() && k < at + 50; ++k) d[k] = (char)(d[k] ^ 1);
                if (!d.empty() && (!there || S_ISREG(st.st_mode))) { spill(p, d); junk = "old file of the same size"; }
                break;
            }
            case 6:
            {
                auto d = i->second.substr(0, i->second.empty() ? 0 : choose((u32)i->second.size()));
                if (!d.empty()) d[choose((u32)d.size())] ^= 4;
                if (!there || S_ISREG(st.st_mode)) { spill(p, d); junk = "old shorter file"; }
                break;
            }
            case 0:
            {
                const u32 len = choose((u32)i->second.size() * 2 + 100);
                std::string d;
                for (u32 k = 0; k < len; ++k) d += (char)('A' + k % 26);
                if (!there || S_ISREG(st.st_mode)) spill(p, d);
                junk = "old file";
                break;
            }
            case 1:
                if (!there || S_ISREG(st.st_mode)) spill(p, i->second + "left over from an earlier time\n");
                junk = "old larger file";
                break;
            case 2:
                if (!there) { mkdir(p.c_str(), 0755); junk = "directory in the way"; }
                break;
            case 3:
                // (a file that stays empty can be "written" there)
                if (!there && !i->second.empty()) { if (symlink("/dev/full", p.c_str()) == 0) junk = "output on a full device"; }
                break;
            case 4:
                if (there) { unlink(p.c_str()); rmdir(p.c_str()); junk = "output removed"; }
                break;
            }
            if (!junk.empty()) { fault(junk.c_str()); logf("  %s at %s", junk.c_str(), i->first.c_str()); }
        }

        World w;
        auto &p = freshPlan();
        snprintf(p.font, sizeof p.font, "%s", c.font->path.c_str());
        p.mapFails = c.mapFails;
        const bool faulty = chance(7, 8);
        if (faulty) drawFaults(p, w, ref);
        w.cpuLimit = 8;
        auto r = execute(dir, c.args, w);
        faultsFired(p, w, r);
        logf("  -> %s %d%s, %u operations", r.killed ? "killed" : r.timeout ? "timeout" : r.exited ? "exit" : "signal", r.exited ? r.status : r.signal,
             r.err.empty() ? "" : (" " + r.err.substr(0, r.err.find('\n'))).c_str(), r.timeout ? 0 : p.total);
        u64 h = mix(r.killed * 4 + r.exited * 2 + (r.status == 0), c.binary);
        for (u32 i = 0; i < p.faults; ++i) if (p.fault[i].fired) h = mix(h, (u64)p.fault[i].op * 1000000 + p.fault[i].act * 100000 + std::min<u32>(p.fault[i].first, 200) * 100 + (u32)p.fault[i].err);
        state(mix(h, mix(p.count[WriteOut], (u64)c.expect)));
        judge("with faults", c, r, ref, dir, true, w.stdoutFull);
        // an execution that did not succeed may leave a file of its own that
        // only the same execution would tidy up
        if (r.exited && r.status == 0) interrupted.erase(joined(c));
        else interrupted.insert(joined(c));
        if (round + 1 == rounds || chance(1, 3))
        {
            // the faults stop: the next execution has to succeed
            clearBlocks(ref);
            auto &q = freshPlan();
            snprintf(q.font, sizeof q.font, "%s", c.font->path.c_str());
            q.mapFails = c.mapFails;
            World calm;
            calm.cpuLimit = 8;
            auto again = execute(dir, c.args, calm);
            logf("  again -> %s %d", again.exited ? "exit" : "signal", again.exited ? again.status : again.signal);
            judge("again, without faults", c, again, ref, dir, false);
            if (ref.r.exited && ref.r.status == 0 && !(again.exited && again.status == 0))
                fail("F02", "rerun-fails", "%s fails after an interrupted run although it succeeds in a fresh directory: status %d signal %d %s", joined(c).c_str(), again.status, again.signal, again.err.c_str());
            if (again.exited && again.status == 0) interrupted.erase(joined(c));
            for (auto &x: snapshot(dir))
                if (interrupted.empty() && !allowed.count(x.first))
                    fail("F02", "stray-file", "%s leaves %s behind, which no undisturbed run creates", joined(c).c_str(), x.first.c_str());
            probe("rerun without faults");
        }
    }
    empty(dir);
}
