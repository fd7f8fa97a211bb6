// All kinds of nodes at one depth. The lines of a kind start at 1000*(depth+1)+100*kind of the file "usr".
#undef D_
#undef N_
#undef LN
#define D_ DEPTH
#if DEPTH == 0
#define N_ 1
#define LN(x) 1##x
#elif DEPTH == 1
#define N_ 2
#define LN(x) 2##x
#elif DEPTH == 2
#define N_ 3
#define LN(x) 3##x
#else
#define N_ 4
#define LN(x) 4##x
#endif

#define C0 I.ch[0]
#define C1 I.ch[1]
#define AW(c) aw(c, n->id, __LINE__)
#define AWR(c) aw(c, 0, __LINE__, true)

#define LINE0 LN(000)
#define SIG mc::task<int> tk<D_>(Node* n)
#define RETURN co_return 1;
#include "calls_native.h"
#undef LINE0
#undef SIG
#undef RETURN

#define LINE0 LN(100)
#define SIG mc::task<void> tv<D_>(Node* n)
#define RETURN co_return;
#include "calls_native.h"
#undef LINE0
#undef SIG
#undef RETURN

#define LINE0 LN(200)
#define SIG mc::task<int&> tr<D_>(Node* n)
#define RETURN co_return cell;
#include "calls_native.h"
#undef LINE0
#undef SIG
#undef RETURN

#define LINE0 LN(300)
#define SIG mc::eager_task<int> ek<D_>(Node* n)
#define RETURN co_return 1;
#include "calls_native.h"
#undef LINE0
#undef SIG
#undef RETURN

#define LINE0 LN(400)
#define SIG mc::when_all_scope sk<D_>(Node* n)
#include "calls_scope.h"
#undef LINE0
#undef SIG

#undef C0
#undef C1
#define C0 n->items[i].ch[0]
#define C1 n->items[i].ch[1]

#define LINE0 LN(500)
#define SIG mc::task<int> mk<D_>(Node* n)
#define RTYPE mc::task<int>
#define RETURN MC_RETURN(1);
#include "calls_macro.h"
#undef LINE0
#undef SIG
#undef RTYPE
#undef RETURN

#define LINE0 LN(600)
#define SIG mc::task<void> mv<D_>(Node* n)
#define RTYPE mc::task<void>
#define RETURN MC_RETURN_VOID();
#include "calls_macro.h"
#undef LINE0
#undef SIG
#undef RTYPE
#undef RETURN

#define LINE0 LN(700)
#define SIG mc::eager_task<int> Ek<D_>(Node* n)
#define RTYPE mc::eager_task<int>
#define RETURN MC_RETURN(1);
#include "calls_macro.h"
#undef LINE0
#undef SIG
#undef RTYPE
#undef RETURN
#undef C0
#undef C1
#undef AW
#undef AWR
