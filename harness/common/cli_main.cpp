// The command line tool's own main(), callable from the harness.
#include <cstdint>
#define main drampower_cli_main
#include <main.cpp>
