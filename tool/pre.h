/* Force-included in front of every translation unit that tdyfacts parses.
   It replaces PETSc's call-stack bookkeeping macros (pure instrumentation whose
   expansion is ~60 AST nodes) by marker calls; nothing else is changed. */
#include <petscsys.h>
#include <petsclog.h>
extern void vf_fn_begin(void);
extern void vf_fn_pop(void);
#undef PetscFunctionBegin
#undef PetscFunctionBeginUser
#undef PetscFunctionBeginHot
#undef PetscFunctionReturn
#undef PetscFunctionReturnVoid
#define PetscFunctionBegin vf_fn_begin()
#define PetscFunctionBeginUser vf_fn_begin()
#define PetscFunctionBeginHot vf_fn_begin()
#define PetscFunctionReturn(a) do { vf_fn_pop(); return a; } while (0)
#define PetscFunctionReturnVoid() do { vf_fn_pop(); return; } while (0)
#undef PetscLogEventBegin
#undef PetscLogEventEnd
extern int vf_ev_begin(PetscLogEvent);
extern int vf_ev_end(PetscLogEvent);
#define PetscLogEventBegin(e,o1,o2,o3,o4) vf_ev_begin(e)
#define PetscLogEventEnd(e,o1,o2,o3,o4) vf_ev_end(e)
