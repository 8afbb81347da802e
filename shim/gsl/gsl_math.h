#ifndef VP_GSL_MATH_H
#define VP_GSL_MATH_H
#include <math.h>
struct gsl_function_struct { double (*function)(double x, void *params); void *params; };
typedef struct gsl_function_struct gsl_function;
#define GSL_FN_EVAL(F, x) (*((F)->function))(x, (F)->params)
#define GSL_DBL_EPSILON 2.2204460492503131e-16
#define GSL_DBL_MIN 2.2250738585072014e-308
#endif
