/* the project's program that converts files to PETSc's format, as it is */
#include "utils/util_petsc_io.c"
