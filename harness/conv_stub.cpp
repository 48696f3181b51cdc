// In harnesses whose subject is not the convolution itself: the convolved image is an arbitrary function of the model image at each pixel.
#include "vx.h"
#include "convolver.h"
double conv_lo = 0, conv_hi = 0; int conv_pixels = 0;
extern "C" void __wrap__ZN9Convolver13ConvolveImageEPd(Convolver*, double* im) { for (int i = 0; i < conv_pixels; i++) im[i] = conv_hi > conv_lo ? vx_ufr("conv", im[i], i, 0, 0, conv_lo, conv_hi) : vx_uf("conv", im[i], i, 0, 0); }
