#include <petsc.h>
PetscErrorCode bad_leak(Vec v, int k) { PetscErrorCode ierr; PetscScalar *a; PetscFunctionBegin; ierr = VecGetArray(v,&a);CHKERRQ(ierr); if (k) { PetscFunctionReturn(0); } ierr = VecRestoreArray(v,&a);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_wrongvec(Vec v, Vec w) { PetscErrorCode ierr; PetscScalar *a; PetscFunctionBegin; ierr = VecGetArray(v,&a);CHKERRQ(ierr); ierr = VecRestoreArray(w,&a);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_halfscatter(DM dm, Vec g, Vec l) { PetscErrorCode ierr; PetscFunctionBegin; ierr = DMGlobalToLocalBegin(dm,g,INSERT_VALUES,l);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_unassembled(Mat A, Mat B) { PetscErrorCode ierr; PetscFunctionBegin; ierr = MatSetValue(B,0,0,1.0,ADD_VALUES);CHKERRQ(ierr); ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr); ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr); PetscFunctionReturn(0); }
static PetscErrorCode get(Vec v, PetscScalar **a) { PetscErrorCode ierr; PetscFunctionBegin; ierr = VecGetArray(v,a);CHKERRQ(ierr); PetscFunctionReturn(0); }
static PetscErrorCode put(Vec v, PetscScalar **a) { PetscErrorCode ierr; PetscFunctionBegin; ierr = VecRestoreArray(v,a);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_helper(Vec v) { PetscErrorCode ierr; PetscScalar *p; PetscFunctionBegin; ierr = get(v,&p);CHKERRQ(ierr); p[0] = 1; ierr = put(v,&p);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_helper(Vec v) { PetscErrorCode ierr; PetscScalar *p; PetscFunctionBegin; ierr = get(v,&p);CHKERRQ(ierr); p[0] = 1; PetscFunctionReturn(0); }
PetscErrorCode good_cond(Vec v, int k) { PetscErrorCode ierr; PetscScalar *p = NULL; PetscFunctionBegin; if (k) { ierr = VecGetArray(v,&p);CHKERRQ(ierr); } if (k) { ierr = VecRestoreArray(v,&p);CHKERRQ(ierr); } PetscFunctionReturn(0); }
static PetscErrorCode fill(Mat A) { PetscErrorCode ierr; PetscFunctionBegin; ierr = MatSetValue(A,0,0,1.0,ADD_VALUES);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_fill(Mat A) { PetscErrorCode ierr; PetscFunctionBegin; ierr = fill(A);CHKERRQ(ierr); ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr); ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr); PetscFunctionReturn(0); }
