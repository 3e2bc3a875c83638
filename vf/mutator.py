"""Self-checking mutator programs: a big table of objects of many kinds, each of which carries its
own identity, is rearranged at random while the collector runs. The program ends with (fine ...) or
names the kind of the object that changed."""

PRE = """(import "cora/lib/hash")
(set 'seed %(seed)d)
(defun rem (a b) (- a (* b (/ a b))))
(defun rnd (n) (begin (set 'seed (rem (+ (* seed 1103515) 12345) 1000003)) (rem seed n)))
(defun mk (i) (cons i (cons i (cons i ()))))
(defun same (y i) (and (cons? y) (and (= (car y) i) (and (= (cadr y) i) (= (car (cdr (cdr y))) i)))))
(defun fill (v j n i) (if (= j n) v (begin (vector-set! v j (mk i)) (fill v (+ j 1) n i))))
(defun allsame (v j n i) (if (= j n) true (and (same (vector-ref v j) i) (allsame v (+ j 1) n i))))
(defun three (l a b) (list l a b))
(defun deep (n l f) (if (= n 0) (f 0) (let r (deep (- n 1) (cons n l) f) (if (= (car l) (+ n 1)) r 'broken-stack))))
(defun junk (n) (if (= n 0) 0 (begin (list n n n) (begin (vector (rem n 30)) (junk (- n 1))))))
(defun dbl (s k) (if (= k 0) s (dbl (string-append s s) (- k 1))))
(defun digit (i) %(digits)s)
(defun num (i s) (if (< i 10) (string-append (digit i) s) (num (/ i 10) (string-append (digit (rem i 10)) s))))
(defun mkstr (i k) (dbl (string-append "s" (num i "/")) k))
(set 'tbl (cora/lib/hash#hash-make 31))
(set 'regs (vector 8))

(defun mk-vec (n i) (fill (vector n) 0 n i))
(defun chain (d i) (if (= d 0) (mk i) (let v (vector 1) (begin (vector-set! v 0 (chain (- d 1) i)) v))))
(defun chain-end (x) (if (vector? x) (chain-end (vector-ref x 0)) x))
(defun mk-cont (i) (let l (mk i) (try (lambda () (cons (mk i) (throw l))) (lambda (v k) (cons v k)))))
(defun mk-cont2 (i n) (let l (mk i) (try (lambda () (list (throw 1) (deep n (list (+ n 1)) (lambda (z) (throw l))))) (lambda (v k) (cons (cons v l) k)))))
(defun mk-deep-cont (i n) (let l (mk i) (try (lambda () (deep n (list (+ n 1)) (lambda (z) (cons (mk i) (throw l))))) (lambda (v k) (cons v k)))))
(defun mk-gs (i) (let g (gensym) (begin (set g (mk i)) g)))
(defun make (k i)
  (if (= k 0) (mk i)
  (if (= k 1) (mk-vec (+ 1 (rnd 9)) i)
  (if (= k 2) (mk-vec (+ 1 (rnd %(wide)d)) i)
  (if (= k 3) (let l (mk i) (lambda (z) (if z l (mk i))))
  (if (= k 4) (three (mk i))
  (if (= k 5) (chain (rnd 6) i)
  (if (= k 6) (mkstr i (rnd %(str)d))
  (if (= k 7) (mk-cont i)
  (if (= k 8) (mk-cont2 i (rnd 20))
  (if (= k 9) (mk-deep-cont i (rnd %(depth)d))
  (if (= k 10) (mk-gs i)
  (let l (mk i) (let f (lambda (x y) (list x y l)) (f i)))))))))))))))
(defun strcheck (x i k) (if (= x (mkstr i k)) true (if (> k 20) false (strcheck x i (+ k 1)))))
(defun good (k x i)
  (if (= k 0) (same x i)
  (if (= k 1) (allsame x 0 (vector-length x) i)
  (if (= k 2) (allsame x 0 (vector-length x) i)
  (if (= k 3) (same (x true) i)
  (if (= k 4) (let r (x 1 2) (and (same (car r) i) (= (cadr r) 1)))
  (if (= k 5) (same (chain-end x) i)
  (if (= k 6) (strcheck x i 0)
  (if (= k 10) (same (value x) i)
  (if (= k 11) (let r (x 5) (and (= (car r) i) (and (= (cadr r) 5) (same (car (cdr (cdr r))) i))))
  true))))))))))
(defun used-up (k x i)
  (if (= k 7) (and (same (car x) i) (let r ((cdr x) 7) (and (same (car r) i) (= (cdr r) 7))))
  (if (= k 8) (and (same (cdr (car x)) i) (let r ((cdr x) 7) (and (same (car (car r)) i) (and (same (cdr (car r)) i) (let q ((cdr r) 8) (= (car q) 7))))))
  (if (= k 9) (and (same (car x) i) (let r ((cdr x) 7) (and (same (car r) i) (= (cdr r) 7))))
  (good k x i)))))
(defun once? (k) (and (> k 6) (< k 10)))
"""
# a table entry is a vector (kind id object)
MAIN = """
(defun entry (k i) (let v (vector 3) (begin (vector-set! v 0 k) (begin (vector-set! v 1 i) (begin (vector-set! v 2 (make k i)) v)))))
(defun ok? (e) (good (vector-ref e 0) (vector-ref e 2) (vector-ref e 1)))
(defun fill-table (t j n) (if (= j n) t (begin (vector-set! t j (entry (kind) j)) (fill-table t (+ j 1) n))))
(defun replace (t p) (let e (vector-ref t p) (if (used-up (vector-ref e 0) (vector-ref e 2) (vector-ref e 1))
  (begin (vector-set! t p (entry (kind) (rnd 100000))) true) false)))
(defun refresh (t p) (let e (vector-ref t p) (if (once? (vector-ref e 0)) true
  (if (ok? e) (let k (vector-ref e 0) (let i (vector-ref e 1) (begin (vector-set! e 2 0) (begin (junk %(junk)d) (begin (vector-set! e 2 (make k i)) true))))) false))))
(defun swap (t p q) (let a (vector-ref t p) (let b (vector-ref t q) (begin (vector-set! t p b) (begin (vector-set! t q a) true)))))
; the object leaves its holder for a variable, others are made, then it comes back
(defun takeout (t p q) (let a (vector-ref t p) (let b (vector-ref t q)
  (let ka (vector-ref a 0) (let ia (vector-ref a 1) (let x (vector-ref a 2)
    (begin (vector-set! a 0 (vector-ref b 0)) (begin (vector-set! a 1 (vector-ref b 1)) (begin (vector-set! a 2 (vector-ref b 2))
    (begin (vector-set! b 2 0)
    (begin (junk %(junk)d)
    (if (good ka x ia)
      (begin (vector-set! b 0 ka) (begin (vector-set! b 1 ia) (begin (vector-set! b 2 x) true)))
      false))))))))))))
(defun viareg (t p) (let e (vector-ref t p) (let r (rnd 8) (let old (vector-ref regs r)
  (if (vector? old) (begin (vector-set! regs r e) (begin (vector-set! t p old) (ok? old)))
    (begin (vector-set! regs r e) (begin (vector-set! t p (entry (kind) (rnd 100000))) true)))))))
(defun viahash (t p) (let e (vector-ref t p) (let h (rnd 97)
  (let old (cora/lib/hash#hash-get tbl h)
    (begin (cora/lib/hash#hash-set! tbl h e)
      (if (vector? old) (begin (vector-set! t p old) (ok? old)) (begin (vector-set! t p (entry (kind) (rnd 100000))) true)))))))
(defun onstack (t p n) (let e (vector-ref t p) (if (once? (vector-ref e 0)) true
  (let x (vector-ref e 2) (begin (vector-set! e 2 (make (vector-ref e 0) (vector-ref e 1)))
    (let w (rnd n) (let r (deep w (list (+ w 1)) (lambda (z) (begin (junk %(junk)d) (good (vector-ref e 0) x (vector-ref e 1))))) (= r true))))))))
(defun check (t p) (ok? (vector-ref t p)))
(defun op (o t n)
  (let p (rnd n)
  (if (= o 0) (replace t p) (if (= o 1) (refresh t p) (if (= o 2) (swap t p (rnd n)) (if (= o 3) (let q (rnd n) (if (= p q) true (takeout t p q)))
  (if (= o 4) (viareg t p) (if (= o 5) (viahash t p) (if (= o 6) (check t p) (if (= o 7) (onstack t p %(depth)d) (begin (junk %(junk)d) true)))))))))))
(defun go (t n m) (if (= m 0) 'fine (let o (pick-op 0) (if (op o t n) (go t n (- m 1)) (list 'broken 'op o 'left m)))))
(defun all (t j n) (if (= j n) 'fine (if (ok? (vector-ref t j)) (all t (+ j 1) n) (list 'broken 'at-end (vector-ref (vector-ref t j) 0)))))
(set 'table (fill-table (vector %(n)d) 0 %(n)d))
(let r (go table %(n)d %(m)d) (if (= r 'fine) (list (all table 0 %(n)d) 'after %(m)d) r))
"""


def nest(xs, var):
    """(if (= var 0) x0 (if ...)) over a random number"""
    out = str(xs[-1])
    for i in range(len(xs) - 2, -1, -1):
        out = "(if (= %s %d) %s %s)" % (var, i, xs[i], out)
    return out


def program(rng, small=False):
    n = rng.choice([40, 200] if small else [300, 2000, 2000, 6000, 20000])
    m = 1500 if small else {300: 60000, 2000: 50000, 6000: 40000, 20000: 30000}[n]
    kinds = [rng.randrange(12) for _ in range(rng.randint(1, 8))]
    if rng.random() < .5:
        kinds.append(0)
    ops = [rng.randrange(9) for _ in range(rng.randint(2, 8))]
    if not set(ops) & {0, 1}:
        ops.append(0)
    big = n > 2500
    d = {"seed": rng.randrange(1, 1000000), "n": n, "m": m, "junk": rng.choice([1, 7, 40] if big or small else [1, 7, 40, 200]),
         "wide": rng.choice([20, 80]) if big else rng.choice([20, 80, 600]), "str": 5 if big else 9,
         "digits": nest(['"%d"' % i for i in range(10)], "i"),
         "depth": rng.choice([5, 30]) if big else rng.choice([30, 150, 400])}
    if d["wide"] == 600 and n > 1000:
        d["wide"] = 200
    t = PRE % d
    t += "(defun pick-kind (r) %s)\n(defun kind () (pick-kind (rnd %d)))\n" % (nest(kinds, "r"), len(kinds))
    t += "(defun pick-op1 (r) %s)\n(defun pick-op (z) (pick-op1 (rnd %d)))\n" % (nest(ops, "r"), len(ops))
    return t + MAIN % d, "(fine after %d)" % m, kinds, ops
