-------------------------------- MODULE MC_Petsc -------------------------------
EXTENDS PetscImpl
===============================================================================
