#include <tdycore.h>
#include <tdytimers.h>
extern PetscErrorCode w(int);
PetscErrorCode good(int k) { PetscErrorCode ierr; PetscFunctionBegin; TDY_START_FUNCTION_TIMER() if (k) { TDY_STOP_FUNCTION_TIMER() PetscFunctionReturn(0); } ierr = w(k);CHKERRQ(ierr); TDY_STOP_FUNCTION_TIMER() PetscFunctionReturn(0); }
PetscErrorCode bad_nostop(int k) { PetscErrorCode ierr; PetscFunctionBegin; TDY_START_FUNCTION_TIMER() if (k) { PetscFunctionReturn(0); } ierr = w(k);CHKERRQ(ierr); TDY_STOP_FUNCTION_TIMER() PetscFunctionReturn(0); }
PetscErrorCode bad_nopush(int k) { PetscErrorCode ierr; ierr = w(k);CHKERRQ(ierr); PetscFunctionReturn(0); }
PetscErrorCode bad_plainreturn(int k) { PetscFunctionBegin; return w(k); }
PetscErrorCode bad_stage(int k) { PetscFunctionBegin; TDyEnterProfilingStage("a"); if (k) PetscFunctionReturn(0); TDyExitProfilingStage("a"); PetscFunctionReturn(0); }
PetscErrorCode good_stage(int k) { PetscFunctionBegin; TDyEnterProfilingStage("a"); if (k) { k++; } TDyExitProfilingStage("a"); PetscFunctionReturn(0); }
