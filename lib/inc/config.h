/* stands in for the autotools config.h, which only mbus.c reads */
#ifndef VERSION
#define VERSION "0.9.0"
#endif
