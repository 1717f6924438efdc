#pragma once
#include "../../aij/mpi/mpiaij.h"
typedef struct { VH_SEQHEADER; } Mat_SeqBAIJ;
