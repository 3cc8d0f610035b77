// podio's own dump tool, built for files of the SIO stand-in
#include "fmt_println.h"
#include "podio-dump-tool.cpp"
