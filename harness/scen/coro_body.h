// The body shared by the native and the macro coroutine; AW, SET, ... are defined by the includer.
for (; i < (int)s->st.size(); ++i) {
    s->cur = i;
#define X1(R, H) if (s->is('a', 'P', R, H)) { AW((Aw<R, H>(s, s->id()))); } else
    ALLT(X1)
#undef X1
#define X1(R, H) if (s->is('a', 'L', R, H)) { AW((s->lv<R, H>())); } else if (s->is('a', 'X', R, H)) { AW((std::move(s->lv<R, H>()))); } else \
    if (s->is('a', 'M', R, H)) { AW((Mem<R, H>(s, s->id()))); } else if (s->is('a', 'F', R, H)) { AW((fr::Fre<R, H>(s, s->id()))); } else \
    if (s->is('s', 'P', R, H)) { SET(got, (Aw<R, H>(s, s->id()))); s->ev("Got", got); } else if (s->is('s', 'M', R, H)) { SET(got, (Mem<R, H>(s, s->id()))); s->ev("Got", got); } else \
    if (s->is('s', 'L', R, H)) { SET(got, (s->lv<R, H>())); s->ev("Got", got); } else \
    if (s->is('t', 'P', R, H)) { TRY(res, (Aw<R, H>(s, s->id()))); s->tried(res); } else if (s->is('t', 'F', R, H)) { TRY(res, (fr::Fre<R, H>(s, s->id()))); s->tried(res); } else \
    if (s->is('f', 'P', R, H)) { FN(s->fn, (Aw<R, H>(s, s->id()))); } else if (s->is('f', 'M', R, H)) { FN(s->fn, (Mem<R, H>(s, s->id()))); } else \
    if (s->is('A', 'P', R, H)) { AA((AwA<R, H>(s, s->id()))); } else \
    if (s->is('Y', 'P', R, H)) { YA((Aw<R, H>(s, s->id()))); } else
    SOMET(X1)
#undef X1
#define X1(R, H) if (s->is('R', 'P', R, H)) { RA((Aw<R, H>(s, s->id()))); } else if (s->is('R', 'M', R, H)) { RA((Mem<R, H>(s, s->id()))); } else
    RETA(SOMET(X1))
#undef X1
    if (s->is('a', 'I', 'v', '2')) { idv.id = s->id(); idv.uses = 0; AW(idv); if (s->tr != '2' && idv.uses < 2) s->ev("BadPayload", 0); } else
    if (s->is('s', 'I', 'v', '2')) { idv.id = s->id(); idv.uses = 0; SET(got, idv); s->ev("Got", got); if (s->tr != '2' && idv.uses < 2) s->ev("BadPayload", 0); } else
    if (s->is('t', 'I', 'v', '2')) { idv.id = s->id(); TRY(res, idv); s->tried(res); } else
    if (s->is('f', 'I', 'v', '2')) { idv.id = s->id(); FN(s->fn, idv); } else
    if (s->form('y')) { YI(s->id()); } else
    if (s->form('z')) { YS(got, s->id()); s->ev("Got", got); } else
    RETA(if (s->form('Z')) { RY(s->id()); } else)
    if (s->form('r')) { RET(s->id()); } else
    if (s->form('x')) { s->ev("Throwing", s->id()); throw sc::Err(1); }
}
