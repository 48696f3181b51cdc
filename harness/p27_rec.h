// Makes the code under test ask the harness for its arrays.
#include <cstdlib>
#include <stdlib.h>
#include <string>
#include <vector>
#include <cmath>
#include <fftw3.h>
extern "C" void* rec_calloc(size_t, size_t);
extern "C" void* rec_malloc(size_t);
#define calloc rec_calloc
#define malloc rec_malloc
#define fftw_malloc rec_fftw
extern "C" void* rec_fftw(size_t);
