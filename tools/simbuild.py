"""Builds the simulators from /repo's working tree.

Objects are cached by the hash of their preprocessed source and command line,
never by time stamps, so that any change of what is compiled is compiled."""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern"]
INSTR = ["-fsanitize=thread", "-fno-sanitize-thread-func-entry-exit"] if False else ["-fsanitize=thread"]

ARDUINO_SRC = ["arduino/AnalogPin.cpp", "arduino/Delays.cpp", "arduino/GpioDigitalPin.cpp", "arduino/I2CBus.cpp",
               "arduino/I2CDevice.cpp", "arduino/PacketUart.cpp", "arduino/SerialDebug.cpp", "arduino/SerialOut.cpp",
               "arduino/SpiBus.cpp", "arduino/SpiDevice.cpp"]
ESP_SRC = ["esp32-esp-idf/AnalogPin.cpp", "esp32-esp-idf/Delays.cpp", "esp32-esp-idf/GpioDigitalPin.cpp",
           "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp", "esp32-esp-idf/PacketUart.cpp",
           "esp32-esp-idf/SerialDebug.cpp", "esp32-esp-idf/SerialOut.cpp", "esp32-esp-idf/SimpleUartDevice.cpp",
           "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp"]
FONT_SRC = ["EncodingConverter.cpp", "FontConverterConfig.cpp", "FreeTypeFace.cpp", "FreeTypeGlyph.cpp", "FreeTypeLibrary.cpp", "main.cpp"]
CORE_SRC = ["BufferedOut.cpp", "PersistentStorage.cpp"]


def extra_sources(d, known):
    """Sources somebody adds to a back end belong to it as well."""
    p = os.path.join(REPO, d)
    return [f"{d}/{f}" for f in sorted(os.listdir(p)) if f.endswith(".cpp") and f"{d}/{f}" not in known]


def binaries():
    ard = ARDUINO_SRC + extra_sources("arduino", ARDUINO_SRC)
    esp = ESP_SRC + extra_sources("esp32-esp-idf", ESP_SRC)
    core = CORE_SRC + [f for f in sorted(os.listdir(REPO)) if f.endswith(".cpp") and f not in CORE_SRC]
    b = {
        "core": dict(repo=core, sim=["storage/shim.cpp", "storage/storage.cpp"], inc=[], defs=[]),
    }
    # what an optimising compiler makes of it: stores merged, widened and reordered as far as the language allows
    # variables nobody assigned hold a pattern in some binaries and zeros in others
    zero = ["-ftrivial-auto-var-init=zero"]
    b["core2"] = dict(b["core"], opt="-O2", defs=zero)
    hal = ["hal/model.cpp", "hal/bus.cpp"]
    pictures = [f"graphics/{f}" for f in sorted(os.listdir(os.path.join(REPO, "graphics"))) if f.endswith(".cpp")]
    scen = ["scen/uart.cpp", "scen/spi.cpp", "scen/i2c.cpp", "scen/timing.cpp", "scen/serial.cpp", "scen/pins.cpp", "scen/device.cpp"]
    for n, d in (("arduino", []), ("arduino64", ["-DSIM_WIDE_LONG"])):
        b[n] = dict(repo=core + ard + pictures, sim=hal + ["arduino/arduino.cpp"] + scen, inc=["arduino"],
                    repoinc=["arduino"], defs=["-DSIM_ARDUINO", "-DDEBUG_SERIAL_OUT"] + d)
    for tick in (10, 1):
        b[f"esp{tick}"] = dict(repo=core + esp + pictures, sim=hal + ["esp/esp.cpp", "storage/shim.cpp", "scen/esp_only.cpp"] + scen, inc=["esp"],
                               repoinc=["esp32-esp-idf"], defs=["-DSIM_ESP", "-DDEBUG_SERIAL_OUT", f"-DSIM_TICK_MS={tick}"] + (zero if tick == 1 else []))
    conv = [f for f in FONT_SRC if os.path.exists(os.path.join(REPO, "gfx-font-converter", f))]
    conv = sorted(set(conv) | {f for f in os.listdir(os.path.join(REPO, "gfx-font-converter")) if f.endswith(".cpp")})
    b["font"] = dict(repo=core + [f"gfx-font-converter/{f}" for f in conv] + pictures,
                     sim=["font/interpose.cpp", "font/fonts.cpp", "font/font.cpp"], inc=["core", "font"], repoinc=["gfx-font-converter"],
                     defs=["-I/usr/include/freetype2", "-I/usr/include/libpng16"], plain=True, libs=["-lfreetype", "-ldl"])
    return b


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")


class BuildError(Exception):
    pass


def compile_unit(src, flags, rename):
    """Returns the object file for src."""
    r = subprocess.run([CXX, "-E", *flags, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise BuildError(f"preprocessing {src}:\n{r.stderr.decode(errors='replace')}")
    h = hashlib.sha256(repr((flags, src, rename, CXX)).encode() + r.stdout).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", h + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + f".{os.getpid()}.tmp.o"
    rc, out = sh([CXX, *flags, "-c", src, "-o", tmp])
    if rc:
        raise BuildError(f"compiling {src}:\n{out}")
    if rename == "main":
        subprocess.run(["objcopy", "--redefine-sym", "main=converter_main", tmp], check=True)
    elif rename:
        rename_sections(tmp, rename is True)
    os.rename(tmp, obj)
    return obj


# a static variable of the library, in a file of the simulator that includes a header of it
LIBRARY_VARIABLE = re.compile(r"\._Z(GV)?Z?N?K?8embedded")


def rename_sections(obj, everything):
    """Gathers the static variables of the code under test, so that every run starts with fresh ones."""
    out = subprocess.run(["objdump", "-h", "-w", obj], stdout=subprocess.PIPE, check=True).stdout.decode()
    args = []
    for line in out.splitlines():
        f = line.split()
        if len(f) < 7 or not f[0].isdigit():
            continue
        name = f[1]
        retained = re.match(r"\.simrtc(data|noinit|ram)\.", name)
        if retained:
            args += ["--rename-section", f"{name}=repo_keep_{retained[1]},alloc,load,data,contents"]
            continue
        if not everything and not LIBRARY_VARIABLE.search(name):
            continue
        if name == ".bss" or name.startswith(".bss."):
            # plain data: one output section cannot mix both kinds
            args += ["--rename-section", f"{name}=repo_bss,alloc"]
        elif name == ".data" or (name.startswith(".data.") and not name.startswith(".data.rel.ro")):
            args += ["--rename-section", f"{name}=repo_data,alloc,load,data,contents"]
    if args:
        subprocess.run(["objcopy", *args, obj], check=True)


def build(names):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(names)


def build_locked(names):
    bins = binaries()
    simdir = os.path.join(VERIF, "sim")
    jobs = {}      # key -> (src, flags, rename)
    plan = {}
    for n in names:
        b = bins[n]
        inc = [f"-I{simdir}", *[f"-I{os.path.join(simdir, i)}" for i in b["inc"]], f"-I{REPO}",
               *[f"-I{os.path.join(REPO, i)}" for i in b.get("repoinc", [])]]
        units = []
        if b.get("plain"):
            # run as processes of its own: no instrumentation, and main under another name
            for s in b["repo"]:
                units.append((os.path.join(REPO, s), [*COMMON, "-O1", *b["defs"], *inc], "main" if s.startswith("gfx-font-converter/") else False))
            for s in b["sim"] + ["core/sim.cpp", "core/tsan_rt.cpp"]:
                units.append((os.path.join(simdir, s), [*COMMON, "-O1", *b["defs"], *inc], False))
            plan[n] = units
            for u in units:
                jobs[repr(u)] = u
            continue
        for s in b["repo"]:
            src = os.path.join(REPO, s)
            units.append((src, [*COMMON, b.get("opt", "-O0"), *INSTR, *b["defs"], *b.get("repodefs", {}).get(s, []), *inc], True))
        def vendor(s):
            # simulated vendor code contains nothing of the library; linked last, so that templates both use are the instrumented ones
            return s.startswith("hal/") or s in ("arduino/arduino.cpp", "esp/esp.cpp")
        for s in b["sim"]:
            if vendor(s):
                continue
            src = os.path.join(simdir, s)
            shim = os.path.basename(s).startswith("shim")
            units.append((src, [*COMMON, b.get("opt", "-O0") if shim else "-O1", "-fdata-sections", *INSTR, *b["defs"], *inc], True if shim else "embedded"))
        for s in filter(vendor, b["sim"]):
            units.append((os.path.join(simdir, s), [*COMMON, "-O2", *b["defs"], *inc], False))
        for s, o in (("core/sim.cpp", "-O2"), ("core/tsan_rt.cpp", "-O2"), ("core/main.cpp", "-O1")):
            units.append((os.path.join(simdir, s), [*COMMON, o, f"-I{simdir}"], False))
        plan[n] = units
        for u in units:
            jobs[repr(u)] = u
    with ThreadPoolExecutor(8) as ex:
        objs = dict(zip(jobs, ex.map(lambda u: compile_unit(*u), jobs.values())))
    res = {}
    for n, units in plan.items():
        o = [objs[repr(u)] for u in units]
        wrap = [f"-Wl,--wrap={f}" for f in "memcmp memchr strlen strnlen strcpy strncpy pthread_mutex_lock".split()]
        link = [CXX, *o, *wrap, "-Wl,-z,noexecstack", *bins[n].get("libs", [])]
        h = hashlib.sha256(repr(link).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", f"{n}-{h}")
        if not os.path.exists(out):
            rc, txt = sh([*link, "-o", out + ".tmp"])
            if rc:
                raise BuildError(f"linking {n}:\n{txt}")
            os.rename(out + ".tmp", out)
        os.utime(out)
        res[n] = out
    prune()
    return res


def prune():
    for d, keep in (("obj", 600), ("bin", 60)):
        p = os.path.join(BUILD, d)
        files = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime, reverse=True)
        for f in files[keep:]:
            os.unlink(f)


if __name__ == "__main__":
    try:
        for n, p in build(sys.argv[1:] or list(binaries())).items():
            print(n, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
