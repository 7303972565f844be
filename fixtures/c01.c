#include <petsc.h>
extern PetscErrorCode g(int *);
extern PetscErrorCode h(int);
PetscErrorCode bad_discard(int *a) { PetscErrorCode ierr; PetscFunctionBegin; g(a); ierr = h(1);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_overwrite(int *a) { PetscErrorCode ierr; PetscFunctionBegin; ierr = g(a); ierr = h(1);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_unread(int *a) { PetscErrorCode ierr; PetscFunctionBegin; if (*a) { ierr = g(a); } else { ierr = h(1);CHKERRQ(ierr); } PetscFunctionReturn(0); }
PetscErrorCode bad_swallow(int *a) { PetscErrorCode ierr; PetscFunctionBegin; ierr = g(a); if (ierr) PetscFunctionReturn(0); ierr = h(1); CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_return(int *a) { PetscErrorCode ierr; PetscFunctionBegin; if (*a) { ierr = g(a);CHKERRQ(ierr); } PetscCall(h(3)); return h(2); }
PetscErrorCode good_check(int *a) { PetscErrorCode ierr; int i; PetscFunctionBegin; for (i = 0; i < 3; i++) { ierr = g(a); if (ierr) { return ierr; } } ierr = h(2); PetscFunctionReturn(ierr); }
void good_stub(int *a, int *ierr) { *ierr = g(a); }
