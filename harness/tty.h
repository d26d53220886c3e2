// whether standard input is a terminal comes from the harness
#pragma once
#include <unistd.h>
extern int ksymTty;
#define isatty(x) (static_cast<void>(x), ksymTty)
