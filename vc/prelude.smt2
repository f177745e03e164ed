(declare-sort SeqI 0)
(declare-sort HeapI 0)
(declare-fun sempty () SeqI)
(declare-fun sunit (Int) SeqI)
(declare-fun scat (SeqI SeqI) SeqI)
(declare-fun slen (SeqI) Int)
(declare-fun sat (SeqI Int) Int)
(declare-fun stake (SeqI Int) SeqI)
(declare-fun sdrop (SeqI Int) SeqI)
(declare-fun sdiff (SeqI SeqI) Int)
(declare-fun hget (HeapI Int Int) Int)
(declare-fun hsub (HeapI Int Int Int) SeqI)
(declare-fun hwrite (HeapI Int Int SeqI) HeapI)
; ---- lengths
(assert (forall ((s SeqI)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (= (slen sempty) 0))
(assert (forall ((s SeqI)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))
(assert (forall ((x Int)) (! (and (= (slen (sunit x)) 1) (= (sat (sunit x) 0) x)) :pattern ((sunit x)))))
(assert (forall ((a SeqI) (b SeqI)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
; ---- concatenation
(assert (forall ((a SeqI) (b SeqI) (c SeqI)) (! (= (scat (scat a b) c) (scat a (scat b c))) :weight 5 :pattern ((scat (scat a b) c)))))
(assert (forall ((s SeqI)) (! (= (scat sempty s) s) :pattern ((scat sempty s)))))
(assert (forall ((s SeqI)) (! (= (scat s sempty) s) :pattern ((scat s sempty)))))
(assert (forall ((a SeqI) (b SeqI) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
; ---- stake and sdrop
(assert (forall ((s SeqI) (k Int)) (! (=> (and (<= 0 k) (<= k (slen s))) (= (slen (sdrop s k)) (- (slen s) k))) :pattern ((sdrop s k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (and (<= 0 k) (<= k (slen s))) (= (slen (stake s k)) k)) :pattern ((stake s k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (= k 0) (= (sdrop s k) s)) :pattern ((sdrop s k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (= k (slen s)) (= (stake s k) s)) :pattern ((stake s k)))))
(assert (forall ((s SeqI) (k Int) (i Int)) (! (=> (and (<= 0 k) (<= k (slen s)) (<= 0 i) (< i (- (slen s) k))) (= (sat (sdrop s k) i) (sat s (+ k i)))) :pattern ((sat (sdrop s k) i)))))
(assert (forall ((s SeqI) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (<= k (slen s))) (= (sat (stake s k) i) (sat s i))) :pattern ((sat (stake s k) i)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (and (= k 1) (<= 1 (slen s))) (= s (scat (sunit (sat s 0)) (sdrop s k)))) :weight 5 :pattern ((sdrop s k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (and (<= 0 k) (<= k (slen s))) (= s (scat (stake s k) (sdrop s k)))) :weight 10 :pattern ((stake s k) (sdrop s k)))))
(assert (forall ((s SeqI) (j Int) (k Int)) (! (=> (and (< 0 j) (< 0 k) (<= (+ j k) (slen s))) (= (sdrop (sdrop s j) k) (sdrop s (+ j k)))) :pattern ((sdrop (sdrop s j) k)))))
(assert (forall ((a SeqI) (b SeqI) (k Int)) (! (=> (and (< 0 k) (<= k (slen a))) (= (sdrop (scat a b) k) (scat (sdrop a k) b))) :pattern ((sdrop (scat a b) k)))))
(assert (forall ((a SeqI) (b SeqI) (k Int)) (! (=> (and (< 0 (slen a)) (<= (slen a) k) (<= k (+ (slen a) (slen b)))) (= (sdrop (scat a b) k) (sdrop b (- k (slen a))))) :pattern ((sdrop (scat a b) k)))))
(assert (forall ((a SeqI) (b SeqI) (k Int)) (! (=> (and (<= 0 k) (<= k (slen a))) (= (stake (scat a b) k) (stake a k))) :pattern ((stake (scat a b) k)))))
(assert (forall ((a SeqI) (b SeqI) (k Int)) (! (=> (and (< 0 (slen a)) (<= (slen a) k) (< k (+ (slen a) (slen b)))) (= (stake (scat a b) k) (scat a (stake b (- k (slen a)))))) :pattern ((stake (scat a b) k)))))
; ---- extensionality, used on request: sdiff is a position where two sequences differ
(assert (forall ((a SeqI) (b SeqI)) (! (or (= a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((sdiff a b)))))
; ---- views of arrays
(assert (forall ((h HeapI) (r Int) (lo Int) (hi Int)) (! (= (slen (hsub h r lo hi)) (ite (<= lo hi) (- hi lo) 0)) :pattern ((hsub h r lo hi)))))
(assert (forall ((h HeapI) (r Int) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (hsub h r lo hi) (sunit (hget h r lo)))) :pattern ((hsub h r lo hi)))))
(assert (forall ((h HeapI) (r Int) (lo Int) (hi Int) (i Int)) (! (=> (and (<= 0 i) (< i (- hi lo))) (= (sat (hsub h r lo hi) i) (hget h r (+ lo i)))) :pattern ((sat (hsub h r lo hi) i)))))
(assert (forall ((h HeapI) (r Int) (lo Int) (hi Int) (k Int)) (! (=> (and (< 0 k) (<= k (- hi lo))) (= (sdrop (hsub h r lo hi) k) (hsub h r (+ lo k) hi))) :pattern ((sdrop (hsub h r lo hi) k)))))
(assert (forall ((h HeapI) (r Int) (lo Int) (hi Int) (k Int)) (! (=> (and (<= 0 k) (< k (- hi lo))) (= (stake (hsub h r lo hi) k) (hsub h r lo (+ lo k)))) :pattern ((stake (hsub h r lo hi) k)))))
(assert (forall ((h HeapI) (r Int) (lo Int) (m Int) (hi Int)) (! (=> (and (<= lo m) (<= m hi)) (= (hsub h r lo hi) (scat (hsub h r lo m) (hsub h r m hi)))) :pattern ((scat (hsub h r lo m) (hsub h r m hi))))))
; ---- writing the sequence xs into array r from position p on
(assert (forall ((h HeapI) (r Int) (p Int) (xs SeqI) (q Int) (i Int)) (! (= (hget (hwrite h r p xs) q i) (ite (and (= q r) (<= p i) (< i (+ p (slen xs)))) (sat xs (- i p)) (hget h q i))) :pattern ((hget (hwrite h r p xs) q i)))))
(assert (forall ((h HeapI) (r Int) (p Int) (xs SeqI) (q Int) (lo Int) (hi Int)) (! (=> (or (not (= q r)) (<= hi p) (<= (+ p (slen xs)) lo)) (= (hsub (hwrite h r p xs) q lo hi) (hsub h q lo hi))) :pattern ((hsub (hwrite h r p xs) q lo hi)))))
(assert (forall ((h HeapI) (r Int) (p Int) (xs SeqI) (lo Int) (hi Int)) (! (=> (and (<= lo p) (<= (+ p (slen xs)) hi)) (= (hsub (hwrite h r p xs) r lo hi) (scat (hsub h r lo p) (scat xs (hsub h r (+ p (slen xs)) hi))))) :pattern ((hsub (hwrite h r p xs) r lo hi)))))
(assert (forall ((h HeapI) (r Int) (p Int) (xs SeqI) (lo Int) (hi Int)) (! (=> (and (<= p lo) (<= lo hi) (<= hi (+ p (slen xs))) (not (and (= p lo) (= hi (+ p (slen xs)))))) (= (hsub (hwrite h r p xs) r lo hi) (stake (sdrop xs (- lo p)) (- hi lo)))) :pattern ((hsub (hwrite h r p xs) r lo hi)))))
