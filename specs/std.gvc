# ---- assumed contracts of the standard library: readers and writers ----
# rdata[r] is everything the reader will ever deliver, rpos[r] how much of it has been delivered,
# rgood[r] says that the reader reports nothing but io.EOF at the end of its data.
ghost rdata : [ref]bytes
ghost rpos : [ref]int
ghost rgood : [ref]bool
# wout[w]: everything written so far; wgood[w]: the writer does not fail
ghost wout : [ref]bytes of *bytes.Buffer
ghost wgood : [ref]bool
# bdata[b]: unread content of a bytes.Buffer
ghost bdata : [ref]bytes of bytes.Buffer

extern "(io.ByteReader).ReadByte" (r) (b, err)
requires 0 <= rpos[r] && rpos[r] <= len(rdata[r])
modifies rpos[r]
ensures err == nil ==> old(rpos[r]) < len(rdata[r]) && rpos[r] == old(rpos[r]) + 1 && b == rdata[r][old(rpos[r])]
ensures err != nil ==> rpos[r] == old(rpos[r])
ensures err == io.EOF ==> rpos[r] == len(rdata[r])
ensures err != nil && rgood[r] ==> err == io.EOF
flag noalloc

extern "io.CopyN" (dst, src, n) (k, err)
requires typeof(dst, "*bytes.Buffer")
requires 0 <= rpos[src] && rpos[src] <= len(rdata[src])
modifies rpos[src], bdata[dst.(*bytes.Buffer)]
ensures 0 <= k && (n >= 0 ==> k <= n) && rpos[src] == old(rpos[src]) + k && rpos[src] <= len(rdata[src])
ensures bdata[dst.(*bytes.Buffer)] == old(bdata[dst.(*bytes.Buffer)]) ++ rdata[src][old(rpos[src]):rpos[src]]
ensures err == nil ==> k == n
ensures k == n ==> err == nil
ensures err == io.EOF ==> rpos[src] == len(rdata[src])
ensures err != nil && rgood[src] ==> err == io.EOF

# the content of a buffer is bdata if it was filled by io.CopyN and ReadFrom, wout of the writer if it was written to
extern "(*bytes.Buffer).Bytes" (b) (s)
ensures len(wout[box(b)]) == 0 ==> bytes(s) == bdata[b]
ensures len(bdata[b]) == 0 ==> bytes(s) == wout[box(b)]

extern "(*bytes.Buffer).String" (b) (s)
ensures len(wout[box(b)]) == 0 ==> s == bdata[b]
ensures len(bdata[b]) == 0 ==> s == wout[box(b)]

extern "(*bytes.Buffer).Len" (b) (n)
ensures n == len(bdata[b]) + len(wout[box(b)])

extern "(*bytes.Buffer).Write" (b, p) (n, err)
modifies wout[box(b)]
ensures err == nil && n == len(p) && wout[box(b)] == old(wout[box(b)]) ++ bytes(p)
flag noalloc

extern "(*bytes.Buffer).WriteString" (b, p) (n, err)
modifies wout[box(b)]
ensures err == nil && n == len(p) && wout[box(b)] == old(wout[box(b)]) ++ p
flag noalloc

extern "(*bytes.Buffer).WriteByte" (b, c) (err)
modifies wout[box(b)]
ensures err == nil && wout[box(b)] == old(wout[box(b)]) ++ bunit(c)
flag noalloc

extern "bufio.NewReader" (r) (b)
ensures b != nil && fresh(b)
ensures rdata[box(b)] == rdata[r][rpos[r]:len(rdata[r])] && rpos[box(b)] == 0 && rgood[box(b)] == rgood[r]

extern "(io.Writer).Write" (w, p) (n, err)
modifies wout[w]
ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p)) && (n < len(p) ==> err != nil)
ensures wout[w] == old(wout[w]) ++ bytes(p)[0:n]
ensures wgood[w] ==> err == nil
ensures n == len(p) ==> wout[w] == old(wout[w]) ++ bytes(p)

extern "io.WriteString" (w, s) (n, err)
modifies wout[w]
ensures 0 <= n && n <= len(s) && (err == nil ==> n == len(s)) && (n < len(s) ==> err != nil)
ensures wout[w] == old(wout[w]) ++ s[0:n]
ensures n == len(s) ==> wout[w] == old(wout[w]) ++ s
ensures wgood[w] ==> err == nil

extern "strconv.FormatInt" (v, b) (s)
requires b == 10
ensures v >= 0 ==> s == itoa(v)

extern "(*base64.Encoding).EncodedLen" (e, n) (m)
requires e == base64.StdEncoding
ensures n >= 0 ==> m == b64len(n)
flag noalloc

extern "(*base64.Encoding).DecodedLen" (e, n) (m)
requires e == base64.StdEncoding
ensures n >= 0 ==> m == b64max(n)
flag noalloc

extern "(*base64.Encoding).Encode" (e, dst, src)
requires e == base64.StdEncoding && len(dst) >= b64len(len(src))
modifies mem(dst)
ensures bytes(dst)[0:b64len(len(src))] == b64enc(old(bytes(src)))

extern "(*base64.Encoding).Decode" (e, dst, src) (n, err)
requires e == base64.StdEncoding && len(dst) >= b64max(len(src))
modifies mem(dst)
ensures (err == nil) <==> b64ok(old(bytes(src)))
ensures err == nil ==> n == len(b64dec(old(bytes(src)))) && bytes(dst)[0:n] == b64dec(old(bytes(src)))
ensures err != io.EOF && 0 <= n && n <= len(dst)

extern "io.ReadFull" (r, buf) (n, err)
requires 0 <= rpos[r] && rpos[r] <= len(rdata[r])
modifies rpos[r], mem(buf)
ensures 0 <= n && n <= len(buf) && rpos[r] == old(rpos[r]) + n && rpos[r] <= len(rdata[r])
ensures bytes(buf)[0:n] == rdata[r][old(rpos[r]):rpos[r]]
ensures err == nil <==> n == len(buf)
ensures err != nil && rgood[r] ==> rpos[r] == len(rdata[r])

extern "(*bytes.Buffer).ReadFrom" (b, r) (n, err)
requires 0 <= rpos[r] && rpos[r] <= len(rdata[r])
modifies rpos[r], bdata[b]
ensures 0 <= n && rpos[r] == old(rpos[r]) + n && rpos[r] <= len(rdata[r])
ensures bdata[b] == old(bdata[b]) ++ rdata[r][old(rpos[r]):rpos[r]]
ensures err == nil ==> rpos[r] == len(rdata[r])
ensures rgood[r] ==> err == nil
flag noalloc

extern "io.ReadAll" (r) (d, err)
requires 0 <= rpos[r] && rpos[r] <= len(rdata[r])
modifies rpos[r]
ensures old(rpos[r]) <= rpos[r] && rpos[r] <= len(rdata[r])
ensures bytes(d) == rdata[r][old(rpos[r]):rpos[r]] && fresh(d)
ensures err == nil ==> rpos[r] == len(rdata[r])
ensures rgood[r] ==> err == nil

extern "ioutil.ReadAll" (r) (d, err)
requires 0 <= rpos[r] && rpos[r] <= len(rdata[r])
modifies rpos[r]
ensures old(rpos[r]) <= rpos[r] && rpos[r] <= len(rdata[r])
ensures bytes(d) == rdata[r][old(rpos[r]):rpos[r]] && fresh(d)
ensures err == nil ==> rpos[r] == len(rdata[r])
ensures rgood[r] ==> err == nil
extern "fmt.Errorf" (format, a) (err)
ensures err != nil
