# ---- net/http ----
# status[w]: the status sent (0: none yet; the first write of the body sends 200); hval[h][k]: value of header k;
# hown[h]: the response h belongs to (0: a request header); urlq[u][k]: query parameter k of u
ghost status : [ref]int
ghost hval : [ref]strstr
ghost hown : [ref]int
ghost hof : [ref]int
ghost urlq : [ref]strstr
ghost qval : [ref]strstr

extern "http.Error" (w, msg, code)
requires[answered once] status[w] == 0 && len(wout[w]) == 0
modifies status[w], wout[w], any(hval)
ensures status[w] == code

extern "(http.ResponseWriter).WriteHeader" (w, code)
requires[answered once] status[w] == 0 && len(wout[w]) == 0
modifies status[w]
ensures status[w] == code

extern "(http.ResponseWriter).Header" (w) (h)
ensures h != nil && hown[h] == w && h == hof[w]
flag noalloc

extern "(http.Header).Set" (h, k, v)
requires[before the response starts] hown[h] != 0 ==> status[hown[h]] == 0 && len(wout[hown[h]]) == 0
modifies hval[h]
ensures hval[h] == with(old(hval[h]), k, v)
flag noalloc

extern "(http.Header).Add" (h, k, v)
requires[before the response starts] hown[h] != 0 ==> status[hown[h]] == 0 && len(wout[hown[h]]) == 0
modifies hval[h]
flag noalloc

extern "(http.Header).Del" (h, k)
requires[before the response starts] hown[h] != 0 ==> status[hown[h]] == 0 && len(wout[hown[h]]) == 0
modifies hval[h]
flag noalloc

extern "(http.Header).Get" (h, k) (v)
ensures v == hval[h][k]
flag noalloc

extern "(*url.URL).Query" (u) (q)
ensures fresh(q) && qval[q] == urlq[u]

extern "(url.Values).Get" (q, k) (v)
ensures v == qval[q][k]
flag noalloc

extern "(url.Values).Set" (q, k, v)
modifies qval[q]
ensures qval[q] == with(old(qval[q]), k, v)
flag noalloc

extern "(url.Values).Encode" (q) (s)
ensures qdec(s) == qval[q]
flag noalloc

extern "(*url.URL).String" (u) (s)
ensures squery(s) == qdec(u.RawQuery)
flag noalloc

extern "(*http.Request).Context" (r) (c)
ensures c != nil
flag noalloc

extern "mime.ParseMediaType" (v) (t, m, err)
ensures err == nil <==> mimeok(v)
ensures err == nil ==> t == mimetype(v) && ("charset" in m ==> m["charset"] == mimecharset(v)) && (!("charset" in m) ==> len(mimecharset(v)) == 0)

extern "strings.ToLower" (s) (l)
ensures l == lower(s)
flag noalloc

extern "json.Marshal" (v) (b, err)
ensures typeof(v, "string") ==> err == nil && bytes(b) == jsonstr(unboxb(v))
ensures err == nil ==> bytes(b) == jsonval(v)
ensures fresh(b)

globalfact forall w ref {wgood[w]} :: typeof(w, "*bytes.Buffer") ==> wgood[w]
