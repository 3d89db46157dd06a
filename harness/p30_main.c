// The program itself, callable.
#define main xcsf_program
#include "main.c"
