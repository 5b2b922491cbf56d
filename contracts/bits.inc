// bit b of an unsigned number
logic hbit(int, int) bool
assume bit b of x^y is the exclusive or of bit b of x and of y; a uint64 seen through an unsafe pointer to eight bytes of an array consists of exactly those bytes (either byte order); unsafe views keep the alignment the platform needs
smt
  (assert (forall ((b Int)) (! (not (hbit 0 b)) :pattern ((hbit 0 b)))))
  (assert (forall ((x Int) (y Int) (b Int)) (! (= (hbit (bxor x y) b) (xor (hbit x b) (hbit y b))) :pattern ((hbit (bxor x y) b)))))
smt wide
  (assert (forall ((a Int) (b Int) (c Int) (d Int) (e Int) (f Int) (g Int) (h Int) (k Int) (t Int)) (! (=> (and (<= 0 k) (< k 8) (<= 0 t) (< t 8))
     (= (hbit (nthbyte (le64 a b c d e f g h) k) t) (hbit (ite (= k 0) a (ite (= k 1) b (ite (= k 2) c (ite (= k 3) d (ite (= k 4) e (ite (= k 5) f (ite (= k 6) g h))))))) t))) :pattern ((hbit (nthbyte (le64 a b c d e f g h) k) t)))))
  (assert (forall ((v Int) (k Int) (t Int)) (! (=> (and (<= 0 k) (< k 8) (<= 0 t) (< t 8)) (= (hbit (nthbyte v k) t) (hbit v (+ (* 8 k) t)))) :pattern ((hbit (nthbyte v k) t)))))
  (assert (forall ((x Int) (y Int) (k Int) (t Int)) (! (=> (and (<= 0 k) (< k 8) (<= 0 t) (< t 8)) (= (hbit (nthbyte (bxor x y) k) t) (xor (hbit (nthbyte x k) t) (hbit (nthbyte y k) t)))) :pattern ((hbit (nthbyte (bxor x y) k) t)))))
