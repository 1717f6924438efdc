/* PETSc installs no header with the layout of its sequential matrices, which blasted_petsc.cpp reads directly.
 * This is the layout in PETSc 3.19; h_petsc.cpp verifies it against PETSc's own accessors before relying on it. */
#pragma once
#include <petsc/private/matimpl.h>
#define VH_SEQHEADER \
  PetscBool roworiented; PetscInt nonew; PetscInt nounused; PetscBool singlemalloc; PetscInt maxnz; \
  PetscInt *imax; PetscInt *ilen; PetscInt *ipre; PetscBool free_imax_ilen; PetscInt reallocs; PetscInt rmax; \
  PetscBool keepnonzeropattern; PetscBool ignorezeroentries; PetscBool free_ij; PetscBool free_a; \
  Mat_CompressedRow compressedrow; PetscInt nz; PetscInt *i; PetscInt *j; PetscInt *diag; \
  PetscInt nonzerorowcnt; PetscBool free_diag; PetscScalar *a; PetscScalar *solve_work; IS row, col, icol; \
  PetscBool pivotinblocks; Mat parent
typedef struct { VH_SEQHEADER; } Mat_SeqAIJ;
