; ---- decimal numbers in text ----
; nd(s,i): position of the first byte at or after i that is not an ASCII digit
; dv(s,i,a): value of the digits from i on, appended to the decimal number a
(define-fun isdig ((c Int)) Bool (and (<= 48 c) (<= c 57)))
(declare-fun nd (B Int) Int)
(declare-fun dv (B Int Int) Int)
(assert (forall ((s B) (i Int)) (! (= (nd s i) (ite (and (<= 0 i) (< i (blen s)) (isdig (bidx s i))) (nd s (+ i 1)) i)) :pattern ((nd s i) (bidx s i)))))
(assert (forall ((s B) (i Int) (a Int)) (! (= (dv s i a) (ite (and (<= 0 i) (< i (blen s)) (isdig (bidx s i))) (dv s (+ i 1) (+ (* 10 a) (- (bidx s i) 48))) a)) :pattern ((dv s i a) (bidx s i)))))
; the same for raw digits 0..9 (binary payload)
(define-fun israw ((c Int)) Bool (and (<= 0 c) (<= c 9)))
(declare-fun rnd (B Int) Int)
(declare-fun rdv (B Int Int) Int)
(assert (forall ((s B) (i Int)) (! (= (rnd s i) (ite (and (<= 0 i) (< i (blen s)) (israw (bidx s i))) (rnd s (+ i 1)) i)) :pattern ((rnd s i) (bidx s i)))))
(assert (forall ((s B) (i Int) (a Int)) (! (= (rdv s i a) (ite (and (<= 0 i) (< i (blen s)) (israw (bidx s i))) (rdv s (+ i 1) (+ (* 10 a) (bidx s i))) a)) :pattern ((rdv s i a) (bidx s i)))))
; the stream position is never past its end: at the end both stop
(assert (forall ((s B) (i Int)) (! (=> (>= i (blen s)) (= (nd s i) i)) :pattern ((nd s i)))))
(assert (forall ((s B) (i Int)) (! (=> (>= i (blen s)) (= (rnd s i) i)) :pattern ((rnd s i)))))
(assert (forall ((s B) (i Int) (a Int)) (! (=> (>= i (blen s)) (= (dv s i a) a)) :pattern ((dv s i a)))))
(assert (forall ((s B) (i Int) (a Int)) (! (=> (>= i (blen s)) (= (rdv s i a) a)) :pattern ((rdv s i a)))))
; itoa: decimal text of a non-negative number; ditoa: its raw digits
(declare-fun itoa (Int) B)
(declare-fun ditoa (Int) B)
(assert (forall ((n Int)) (! (=> (>= n 0) (= (itoa n) (ite (< n 10) (bunit (+ 48 n)) (bcat (itoa (div n 10)) (bunit (+ 48 (mod n 10))))))) :pattern ((itoa n) (tick n)))))
(assert (forall ((n Int)) (! (=> (>= n 0) (= (ditoa n) (ite (< n 10) (bunit n) (bcat (ditoa (div n 10)) (bunit (mod n 10)))))) :pattern ((ditoa n) (tick n)))))
; rev: a sequence backwards
(declare-fun rev (B) B)
(assert (forall ((s B)) (! (= (blen (rev s)) (blen s)) :pattern ((rev s)))))
(assert (forall ((s B) (i Int)) (! (=> (and (<= 0 i) (< i (blen s))) (= (bidx (rev s) i) (bidx s (- (- (blen s) 1) i)))) :pattern ((bidx (rev s) i)))))
; ---- base64 (assumed contract of encoding/base64) ----
(declare-fun b64enc (B) B)
(declare-fun b64dec (B) B)
(declare-fun b64ok (B) Bool)
(define-fun b64len ((n Int)) Int (* 4 (div (+ n 2) 3)))
(define-fun b64max ((n Int)) Int (* 3 (div n 4)))
(assert (forall ((d B)) (! (and (b64ok (b64enc d)) (= (b64dec (b64enc d)) d) (= (blen (b64enc d)) (b64len (blen d)))) :pattern ((b64enc d)))))
(assert (forall ((d B)) (! (<= (blen (b64dec d)) (b64max (blen d))) :pattern ((b64dec d)))))
; ---- Engine.IO payload format; x: binary (XHR2) format ----
(define-fun wirelen ((x Bool) (mt Int) (d B)) Int (ite x (+ 1 (blen d)) (ite (= mt 1) (+ 2 (blen (b64enc d))) (+ 1 (blen d)))))
(define-fun wire1 ((mt Int) (pt Int) (d B)) B
  (ite (= mt 1) (bcat (itoa (+ 2 (blen (b64enc d)))) (bcat (bunit 58) (bcat (bunit 98) (bcat (bunit (mod (+ pt 48) 256)) (b64enc d)))))
                (bcat (itoa (+ 1 (blen d))) (bcat (bunit 58) (bcat (bunit (mod (+ pt 48) 256)) d)))))
(define-fun wire2 ((mt Int) (pt Int) (d B)) B
  (bcat (bunit mt) (bcat (ditoa (+ 1 (blen d))) (bcat (bunit 255) (bcat (bunit (ite (= mt 0) (mod (+ pt 48) 256) pt)) d)))))
(declare-fun wire (Bool Int Int B) B)
(assert (forall ((x Bool) (mt Int) (pt Int) (d B)) (! (= (wire x mt pt d) (ite x (wire2 mt pt d) (wire1 mt pt d))) :pattern ((wire x mt pt d) (tick (blen d))))))
; parsing a packet at position i of s
(define-fun tbin ((s B) (i Int)) Bool (= (bidx s (+ 1 (nd s i))) 98))
(define-fun thd ((s B) (i Int)) Int (+ (nd s i) (ite (tbin s i) 3 2)))
(define-fun tlen ((s B) (i Int)) Int (- (dv s i 0) (ite (tbin s i) 2 1)))
(define-fun xhd ((s B) (i Int)) Int (+ 2 (rnd s (+ i 1))))
(define-fun xlen ((s B) (i Int)) Int (- (rdv s (+ i 1) 0) 1))
(declare-fun pend (Bool B Int) Int)
(declare-fun pwf (Bool B Int) Bool)
(declare-fun pmt (Bool B Int) Int)
(declare-fun ppt (Bool B Int) Int)
(declare-fun pdat (Bool B Int) B)
(assert (forall ((x Bool) (s B) (i Int)) (! (= (pend x s i) (ite x (+ (xhd s i) (xlen s i)) (+ (thd s i) (tlen s i)))) :pattern ((pend x s i)))))
(assert (forall ((x Bool) (s B) (i Int)) (! (= (pwf x s i) (and (<= 0 i) (< i (blen s)) (ite x
   (and (<= (bidx s i) 1) (< (+ 1 (rnd s (+ i 1))) (blen s)) (= (bidx s (rnd s (+ i 1))) 255) (<= 0 (xlen s i)) (<= (+ (xhd s i) (xlen s i)) (blen s)))
   (and (< (nd s i) (blen s)) (= (bidx s (nd s i)) 58) (<= (thd s i) (blen s)) (<= 0 (tlen s i)) (<= (+ (thd s i) (tlen s i)) (blen s))
        (=> (tbin s i) (b64ok (bsub s (thd s i) (+ (thd s i) (tlen s i))))))))) :pattern ((pwf x s i)))))
(assert (forall ((x Bool) (s B) (i Int)) (! (= (pmt x s i) (ite x (bidx s i) (ite (tbin s i) 1 0))) :pattern ((pmt x s i)))))
(assert (forall ((x Bool) (s B) (i Int)) (! (= (ppt x s i) (ite x (ite (= (bidx s i) 0) (mod (- (bidx s (- (xhd s i) 1)) 48) 256) (bidx s (- (xhd s i) 1))) (mod (- (bidx s (- (thd s i) 1)) 48) 256))) :pattern ((ppt x s i)))))
(assert (forall ((x Bool) (s B) (i Int)) (! (= (pdat x s i) (ite x (bsub s (xhd s i) (+ (xhd s i) (xlen s i))) (ite (tbin s i) (b64dec (bsub s (thd s i) (+ (thd s i) (tlen s i)))) (bsub s (thd s i) (+ (thd s i) (tlen s i)))))) :pattern ((pdat x s i)))))
; pall: from i on, s is a sequence of complete well-formed packets; ppos: where the k-th of them starts
(declare-fun pall (Bool B Int) Bool)
(declare-fun ppos (Bool B Int Int) Int)
(assert (forall ((x Bool) (s B) (i Int)) (! (= (pall x s i) (or (= i (blen s)) (and (pwf x s i) (pall x s (pend x s i))))) :pattern ((pall x s i) (pwf x s i)))))
(assert (forall ((x Bool) (s B)) (! (pall x s (blen s)) :pattern ((pall x s (blen s))))))
(assert (forall ((x Bool) (s B) (i Int)) (! (= (ppos x s i 0) i) :pattern ((ppos x s i 0)))))
(assert (forall ((x Bool) (s B) (i Int) (k Int)) (! (=> (> k 0) (= (ppos x s i k) (pend x s (ppos x s i (- k 1))))) :pattern ((ppos x s i k) (tick k)))))
; pw: wire form of the first n packets of a slice, in the memory given by the four heaps
(declare-fun pw (Bool (Array Int Int) (Array Int Int) (Array Int Sl) (Array Int B) Int Int Int) B)
(define-fun slb ((m (Array Int B)) (s Sl)) B (bsub (select m (slbase s)) (sloff s) (+ (sloff s) (sllen s))))
(assert (forall ((x Bool) (a (Array Int Int)) (b (Array Int Int)) (c (Array Int Sl)) (m (Array Int B)) (q Int) (o Int)) (! (= (pw x a b c m q o 0) bempty) :pattern ((pw x a b c m q o 0)))))
(assert (forall ((x Bool) (a (Array Int Int)) (b (Array Int Int)) (c (Array Int Sl)) (m (Array Int B)) (q Int) (o Int) (n Int)) (! (=> (> n 0) (= (pw x a b c m q o n) (bcat (pw x a b c m q o (- n 1)) (wire x (select a (elem q (+ o (- n 1)))) (select b (elem q (+ o (- n 1)))) (slb m (select c (elem q (+ o (- n 1))))))))) :pattern ((pw x a b c m q o n) (tick n)))))
