; ---- HTTP ----
; content types: mimeok(v): v parses; mimetype(v), mimecharset(v): its media type and charset parameter
(declare-fun mimeok (B) Bool)
(declare-fun mimetype (B) B)
(declare-fun mimecharset (B) B)
(declare-fun lower (B) B)
; jsonstr(s): the JSON string literal json.Marshal produces for s
(declare-fun jsonstr (B) B)
; jsonval(v): the JSON json.Marshal produces for v
(declare-fun jsonval (Int) B)
; squery(s): the query parameters of the URL s, each with its first value; qdec(s): those of the query string s
(declare-fun squery (B) (Array B B))
(declare-fun qdec (B) (Array B B))
; urlok(s): url.Parse accepts s; urlpath(s): the path it then finds
(declare-fun urlok (B) Bool)
(declare-fun urlpath (B) B)
