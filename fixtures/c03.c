#include <petsc.h>
#include <stdio.h>
extern PetscErrorCode use(double *);
typedef struct { double *x; Vec v; } Box;
PetscErrorCode bad_leak(int n, int k) { PetscErrorCode ierr; double *a; PetscFunctionBegin; ierr = PetscMalloc1(n,&a);CHKERRQ(ierr); if (k) PetscFunctionReturn(0); ierr = PetscFree(a);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_obj(void) { PetscErrorCode ierr; Vec v, w; PetscFunctionBegin; ierr = VecCreate(PETSC_COMM_SELF,&v);CHKERRQ(ierr); ierr = VecDuplicate(v,&w);CHKERRQ(ierr); ierr = VecDestroy(&v);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_file(char *s) { FILE *fp; PetscFunctionBegin; fp = fopen(s,"w"); fprintf(fp,"x"); PetscFunctionReturn(0); }
PetscErrorCode bad_uaf(int n) { PetscErrorCode ierr; double *a; PetscFunctionBegin; a = malloc(8); a[0] = 1; free(a); a[0] = 2; PetscFunctionReturn(0); }
PetscErrorCode bad_double(int n) { PetscErrorCode ierr; double *a; PetscFunctionBegin; a = malloc(8); if (n) free(a); free(a); PetscFunctionReturn(0); }
PetscErrorCode good_store(Box *b, int n) { PetscErrorCode ierr; double *a; PetscFunctionBegin; ierr = PetscMalloc1(n,&a);CHKERRQ(ierr); b->x = a; ierr = VecCreate(PETSC_COMM_SELF,&b->v);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_out(double **p, int n) { PetscErrorCode ierr; PetscFunctionBegin; ierr = PetscMalloc1(n,p);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_use(int n) { PetscErrorCode ierr; double *a; PetscFunctionBegin; ierr = good_out(&a,n);CHKERRQ(ierr); ierr = use(a);CHKERRQ(ierr); ierr = PetscFree(a);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode good_cond(int n) { PetscErrorCode ierr; double *a = NULL; PetscFunctionBegin; if (n) { ierr = PetscMalloc1(n,&a);CHKERRQ(ierr); } if (a) { ierr = PetscFree(a);CHKERRQ(ierr); } PetscFunctionReturn(0); }
PetscErrorCode good_file(char *s) { FILE *fp; PetscFunctionBegin; fp = fopen(s,"w"); if (!fp) PetscFunctionReturn(0); fclose(fp); PetscFunctionReturn(0); }
