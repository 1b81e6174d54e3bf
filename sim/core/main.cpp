#include "sim.h"
int main(int argc, char** argv) { return sim::main_driver(argc, argv); }
