#ifndef LIBFLATARRAY_CONFIG_H
#define LIBFLATARRAY_CONFIG_H
#define LIBFLATARRAY_WITH_CPP14 1
#define LIBFLATARRAY_WITH_SILO TRUE
#endif
