#define DESCHECK 1
#include "C08.cpp"
