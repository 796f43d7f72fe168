; ---- finite integer sequences (byte strings, packet queues, traces) ----
(declare-sort B 0)
(declare-datatypes ((Sl 0)) (((mksl (slbase Int) (sloff Int) (sllen Int) (slcap Int)))))
(declare-fun blen (B) Int)
(declare-fun bidx (B Int) Int)
(declare-const bempty B)
(declare-fun bunit (Int) B)
(declare-fun bcat (B B) B)
(declare-fun bsub (B Int Int) B)
(declare-fun bupd (B Int Int) B)
(declare-fun bzeros (Int) B)
(declare-fun beq (B B) Bool)
(declare-fun bdiff (B B) Int)
(assert (forall ((a B)) (! (>= (blen a) 0) :pattern ((blen a)))))
(assert (= (blen bempty) 0))
(assert (forall ((a B)) (! (=> (= (blen a) 0) (= a bempty)) :pattern ((blen a)))))
(assert (forall ((v Int)) (! (and (= (blen (bunit v)) 1) (= (bidx (bunit v) 0) v)) :pattern ((bunit v)))))
(assert (forall ((a B) (b B)) (! (= (blen (bcat a b)) (+ (blen a) (blen b))) :pattern ((bcat a b)))))
(assert (forall ((a B) (b B) (i Int)) (! (= (bidx (bcat a b) i) (ite (< i (blen a)) (bidx a i) (bidx b (- i (blen a))))) :pattern ((bidx (bcat a b) i)))))
(assert (forall ((a B) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen a))) (= (blen (bsub a l h)) (- h l))) :pattern ((bsub a l h)))))
(assert (forall ((a B) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen a)) (<= 0 i) (< i (- h l))) (= (bidx (bsub a l h) i) (bidx a (+ l i)))) :pattern ((bidx (bsub a l h) i)))))
(assert (forall ((a B) (i Int) (v Int)) (! (=> (and (<= 0 i) (< i (blen a))) (= (blen (bupd a i v)) (blen a))) :pattern ((bupd a i v)))))
(assert (forall ((a B) (i Int) (v Int) (j Int)) (! (=> (and (<= 0 i) (< i (blen a))) (= (bidx (bupd a i v) j) (ite (= i j) v (bidx a j)))) :pattern ((bidx (bupd a i v) j)))))
(assert (forall ((n Int)) (! (=> (>= n 0) (= (blen (bzeros n)) n)) :pattern ((bzeros n)))))
(assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (bidx (bzeros n) i) 0)) :pattern ((bidx (bzeros n) i)))))
; equality is extensional
(assert (forall ((a B) (b B)) (! (=> (beq a b) (= a b)) :pattern ((beq a b)))))
(assert (forall ((a B) (b B)) (! (or (beq a b) (not (= (blen a) (blen b))) (and (<= 0 (bdiff a b)) (< (bdiff a b) (blen a)) (not (= (bidx a (bdiff a b)) (bidx b (bdiff a b)))))) :pattern ((beq a b)))))
; structural lemmas (all consequences of the above by extensionality)
(assert (forall ((a B)) (! (= (bcat a bempty) a) :pattern ((bcat a bempty)))))
(assert (forall ((a B)) (! (= (bcat bempty a) a) :pattern ((bcat bempty a)))))
(assert (forall ((a B) (b B) (c B)) (! (= (bcat (bcat a b) c) (bcat a (bcat b c))) :pattern ((bcat (bcat a b) c)))))
(assert (forall ((a B) (h Int)) (! (=> (= h (blen a)) (= (bsub a 0 h) a)) :pattern ((bsub a 0 h)))))
(assert (forall ((a B) (l Int)) (! (=> (and (<= 0 l) (<= l (blen a))) (= (bsub a l l) bempty)) :pattern ((bsub a l l)))))
(assert (forall ((a B) (b B) (h Int)) (! (=> (= h (blen a)) (= (bsub (bcat a b) 0 h) a)) :pattern ((bsub (bcat a b) 0 h)))))
(assert (forall ((a B) (b B) (l Int) (h Int)) (! (=> (and (= l (blen a)) (= h (+ (blen a) (blen b)))) (= (bsub (bcat a b) l h) b)) :pattern ((bsub (bcat a b) l h)))))
(assert (forall ((a B) (l Int) (h Int) (l2 Int) (h2 Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (blen a)) (<= 0 l2) (<= l2 h2) (<= h2 (- h l))) (= (bsub (bsub a l h) l2 h2) (bsub a (+ l l2) (+ l h2)))) :pattern ((bsub (bsub a l h) l2 h2)))))
(assert (forall ((a B) (l Int) (m Int) (h Int)) (! (=> (and (<= 0 l) (<= l m) (<= m h) (<= h (blen a))) (= (bcat (bsub a l m) (bsub a m h)) (bsub a l h))) :pattern ((bcat (bsub a l m) (bsub a m h))))))
(assert (forall ((a B)) (! (=> (= (blen a) 1) (= a (bunit (bidx a 0)))) :pattern ((blen a)))))
; splice: a with the bytes at offset l replaced by x
(declare-fun bsplice (B Int B) B)
(assert (forall ((a B) (l Int) (x B)) (! (=> (and (<= 0 l) (<= (+ l (blen x)) (blen a))) (= (blen (bsplice a l x)) (blen a))) :pattern ((bsplice a l x)))))
(assert (forall ((a B) (l Int) (x B) (i Int)) (! (=> (and (<= 0 l) (<= (+ l (blen x)) (blen a)) (<= 0 i) (< i (blen a))) (= (bidx (bsplice a l x) i) (ite (and (<= l i) (< i (+ l (blen x)))) (bidx x (- i l)) (bidx a i)))) :pattern ((bidx (bsplice a l x) i)))))
(assert (forall ((a B) (l Int) (x B) (h Int)) (! (=> (and (<= 0 l) (<= (+ l (blen x)) (blen a)) (= h (+ l (blen x)))) (= (bsub (bsplice a l x) l h) x)) :pattern ((bsub (bsplice a l x) l h)))))
(assert (forall ((a B) (x B)) (! (=> (= (blen x) (blen a)) (= (bsplice a 0 x) x)) :pattern ((bsplice a 0 x)))))
; ---- references ----
(declare-fun birth (Int) Int)
(declare-fun fatag (Int) Int)
(declare-fun faown (Int) Int)
(declare-fun elem (Int Int) Int)
(declare-fun elembase (Int) Int)
(declare-fun elemidx (Int) Int)
(assert (forall ((b Int) (i Int)) (! (and (= (elembase (elem b i)) b) (= (elemidx (elem b i)) i) (= (birth (elem b i)) (birth b)) (= (fatag (elem b i)) (- 1)) (not (= (elem b i) 0))) :pattern ((elem b i)))))
; ---- interfaces ----
(declare-fun dyn (Int) Int)
(declare-fun boxi (Int Int) Int)
(declare-fun boxb (Int B) Int)
(declare-fun boxs (Int Sl) Int)
(declare-fun unboxi (Int) Int)
(declare-fun unboxb (Int) B)
(declare-fun unboxs (Int) Sl)
(assert (forall ((t Int) (x Int)) (! (and (= (dyn (boxi t x)) t) (= (unboxi (boxi t x)) x) (not (= (boxi t x) 0)) (= (birth (boxi t x)) (birth x))) :pattern ((boxi t x)))))
(assert (forall ((t Int) (x B)) (! (and (= (dyn (boxb t x)) t) (= (unboxb (boxb t x)) x) (not (= (boxb t x) 0))) :pattern ((boxb t x)))))
(assert (forall ((t Int) (x Sl)) (! (and (= (dyn (boxs t x)) t) (= (unboxs (boxs t x)) x) (not (= (boxs t x) 0))) :pattern ((boxs t x)))))
; ---- machine arithmetic ----
(define-fun wrapu ((x Int) (m Int)) Int (ite (and (<= 0 x) (< x m)) x (mod x m)))
(define-fun wraps ((x Int) (h Int)) Int (ite (and (<= (- h) x) (< x h)) x (- (mod (+ x h) (* 2 h)) h)))
(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))
(define-fun tmod ((x Int) (y Int)) Int (- x (* y (tdiv x y))))
(declare-fun bsize (Int) Int)
(assert (forall ((r Int)) (! (>= (bsize r) 0) :pattern ((bsize r)))))
(declare-fun gid (Int) Int)
(assert (= (birth 0) 0))
(assert (= (dyn 0) 0))
; tick(n) is true; it only controls where recursive definitions are unfolded
(declare-fun tick (Int) Bool)
(assert (forall ((n Int)) (! (tick n) :pattern ((tick n)))))
