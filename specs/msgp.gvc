# ---- MessagePack: assumed contracts of tinylib/msgp v1.1.1 ----
# what is left is a proper suffix of what was given
define mpsuffix(r, b) = base(r) == base(b) && off(r) > off(b) && len(r) >= 0 && off(r) + len(r) == off(b) + len(b)
extern "msgp.ReadBoolBytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadFloat32Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadFloat64Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadComplex64Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadComplex128Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadUint8Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadUint16Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadUint32Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadUint64Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
ensures[C15:number] (err == nil <==> mx64ok(sltok(b))) && (err == nil ==> v == mx64(sltok(b)) && sltok(rest) == mxaft64(sltok(b)))
flag noalloc
extern "msgp.ReadUintBytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadInt8Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadInt16Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadInt32Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadInt64Bytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadIntBytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadTimeBytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b)
flag noalloc
extern "msgp.ReadStringBytes" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b) && v == mpstr(b) && rest == mpafterstr(b)
ensures[C15:text] (err == nil <==> mxstrok(sltok(b))) && (err == nil ==> v == mxstr(sltok(b)) && sltok(rest) == mxaftstr(sltok(b)))
extern "msgp.ReadBytesZC" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b) && base(v) == base(b) && off(v) >= off(b) && off(v) + len(v) <= off(b) + len(b)
flag noalloc
extern "msgp.ReadMapKeyZC" (b) (v, rest, err)
ensures err == nil ==> mpsuffix(rest, b) && v == mpkey(b) && rest == mpkeyrest(b) && base(v) == base(b) && off(v) >= off(b) && off(v) + len(v) <= off(b) + len(b)
ensures[C15:key] (err == nil <==> mxkeyok(sltok(b))) && (err == nil ==> bytes(v) == mxkey(sltok(b)) && sltok(rest) == mxaftkey(sltok(b)))
flag noalloc
extern "msgp.ReadMapHeaderBytes" (b) (n, rest, err)
ensures err == nil ==> mpsuffix(rest, b) && n == mpmapsize(b) && rest == mpaftermap(b)
ensures[C15:size] (err == nil <==> mxmapok(sltok(b))) && (err == nil ==> n == mxmap(sltok(b)) && sltok(rest) == mxaftmap(sltok(b)))
flag noalloc
extern "msgp.ReadArrayHeaderBytes" (b) (n, rest, err)
ensures err == nil ==> mpsuffix(rest, b) && n == mpsize(b) && rest == mpafter(b)
ensures[C15:size] (err == nil <==> mxarrok(sltok(b))) && (err == nil ==> n == mxarr(sltok(b)) && sltok(rest) == mxaftarr(sltok(b)))
flag noalloc
extern "msgp.Skip" (b) (rest, err)
ensures err == nil ==> mpsuffix(rest, b) && mpwhole(b) && rest == mpskip(b)
ensures[C15:value] (err == nil <==> mxrawok(sltok(b))) && (err == nil ==> sltok(rest) == mxaftraw(sltok(b)))
flag noalloc
# these make room for as many elements as the header says, before they have seen them
extern "msgp.ReadMapStrIntfBytes" (b, old) (v, rest, err)
requires[C15:all of it is there] mpwhole(b)
ensures err == nil ==> mpsuffix(rest, b)
extern "msgp.ReadIntfBytes" (b) (v, rest, err)
requires[C15:all of it is there] mpwhole(b)
ensures err == nil ==> mpsuffix(rest, b)
extern "msgp.ReadExtensionBytes" (b, e) (rest, err)
ensures err == nil ==> mpsuffix(rest, b)
extern "(msgp.Unmarshaler).UnmarshalMsg" (u, b) (rest, err)
ensures err == nil ==> mpsuffix(rest, b)

# ---- reflection on values that are written to ----
globalfact[C15,C16,C17,C18,C19,C20:kinds of values] forall v int {vkind(v)} :: vkind(v) == tkind(rvt(v))
extern "(reflect.Value).Addr" (v) (p)
requires rsettable(v)
ensures vkind(p) == 22 && rvi(p) != nil && unboxi(rvi(p)) != nil && telem(rvt(p)) == rvt(v)
flag noalloc
extern "(reflect.Value).Index" (v, i) (u)
requires (vkind(v) == 23 || vkind(v) == 17) && 0 <= i && i < rlen(v)
ensures rvt(u) == telem(rvt(v)) && (vkind(v) == 23 || rsettable(v) ==> rsettable(u))
flag noalloc
extern "(reflect.Value).Len" (v) (n)
requires vkind(v) == 23 || vkind(v) == 17 || vkind(v) == 21 || vkind(v) == 24
ensures n == rlen(v) && n >= 0
flag noalloc
extern "(reflect.Value).Set" (v, x)
requires rsettable(v) && rassign(rvt(x), rvt(v))
flag noalloc
extern "(reflect.Value).Convert" (v, t) (u)
requires rconv(rvt(v), t)
ensures rvt(u) == t
extern "(reflect.Value).SetMapIndex" (m, k, v)
requires vkind(m) == 21 && rassign(rvt(k), tmapkey(rvt(m))) && rassign(rvt(v), telem(rvt(m)))
extern "(reflect.Type).Key" (t) (k)
requires tkind(t) == 21
ensures k == tmapkey(t) && k != nil
flag noalloc
extern "reflect.MakeSlice" (t, n, c) (v)
requires tkind(t) == 23 && 0 <= n && n <= c
ensures rvt(v) == t && rlen(v) == n && rassign(t, t)
extern "reflect.MakeMapWithSize" (t, n) (v)
requires tkind(t) == 21 && n >= 0
ensures rvt(v) == t && rassign(t, t)

# the values decoded one after the other: what into, from where, up to where, with which error
ghost mdec : bytes
ghost mfrom : [ref]slice
ghost mto : [ref]slice
ghost merr : [ref]int
spec "socketio.msgpUnmashalArg" (i, data) (rest, err)
prop C15
flag nopanic
requires vkind(i) == 22 && rvi(i) != nil && unboxi(rvi(i)) != nil
modifies mdec, any(mfrom), any(mto), any(merr)
modifies any(heap("C.bool")), any(heap("C.float32")), any(heap("C.float64")), any(heap("C.complex64")), any(heap("C.complex128")), any(heap("C.uint8")), any(heap("C.uint16")), any(heap("C.uint32")), any(heap("C.uint64")), any(heap("C.uint")), any(heap("C.int8")), any(heap("C.int16")), any(heap("C.int32")), any(heap("C.int64")), any(heap("C.int")), any(heap("C.time.Duration")), any(heap("C.time.Time")), any(heap("C.string")), any(heap("M.byte")), any(heap("C._LJ_byte")), any(heap("C.map_LstringJ_interface__")), any(heap("C.iface"))
assumes mdec == old(mdec) ++ bunit(i) && mfrom[len(old(mdec))] == data && mto[len(old(mdec))] == rest && merr[len(old(mdec))] == err
assumes forall k int {mfrom[k]} :: k < len(old(mdec)) ==> mfrom[k] == old(mfrom)[k]
assumes forall k int {mto[k]} :: k < len(old(mdec)) ==> mto[k] == old(mto)[k]
assumes forall k int {merr[k]} :: k < len(old(mdec)) ==> merr[k] == old(merr)[k]
ensures[takes something] err == nil ==> mpsuffix(rest, data)
cand (d []byte) :: mpsuffix(d, data)
atcall[no more elements than bytes] "reflect.MakeSlice" (t, n, c) n <= len(data) && c == n
spec "socketio.msgpReadMap" (b, mapType) (v, o, err)
prop C15
flag nopanic inline
noframe
cand (d []byte) :: mpsuffix(d, b)
requires mapType != nil && tkind(mapType) == 21 && tkind(tmapkey(mapType)) == 24
atcall[no more elements than bytes] "reflect.MakeMapWithSize" (t, n) 0 <= n && n <= len(b)
ensures[takes something] err == nil ==> mpsuffix(o, b)
globalfact[C15,C20:converting strings] forall a int, b int {rconv(a, b)} :: tkind(a) == 24 && tkind(b) == 24 ==> rconv(a, b)
globalfact[C15,C20:a value of a type can be assigned to it] forall a int {rassign(a, a)} :: rassign(a, a)
