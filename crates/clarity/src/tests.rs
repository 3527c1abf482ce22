use crate::*;

#[test]
fn basics() {
    let mut vm = Vm::default();
    vm.deploy(
        "ST1.a",
        r#"
(define-constant E (err u4))
(define-fungible-token t u100)
(define-data-var n uint u1)
(define-map m (buff 2) int)
(define-private (add (x uint) (y uint)) (+ x y))
(define-public (f (x uint)) (begin (var-set n x) (asserts! (< x u5) E) (ok (var-get n))))
(define-public (g (x (buff 2))) (begin (asserts! (map-insert m x (* -1 (to-int u3))) (err u9)) (try! (ft-mint? t u60 tx-sender)) (ok true)))
(define-read-only (h) (fold add (list u1 u2 u3) u0))
(define-read-only (r (b (buff 16))) (unwrap-panic (slice? (unwrap-panic (to-consensus-buff? (buff-to-uint-le b))) u1 u17)))
(define-read-only (mm (o (optional uint))) (match o x (+ x u1) u0))
"#,
    )
    .unwrap();
    assert_eq!(vm.call("ST2", "ST1.a", "f", &[V::UInt(3)]), CallResult::Value(V::ok(V::UInt(3))));
    assert_eq!(vm.call("ST2", "ST1.a", "f", &[V::UInt(7)]), CallResult::Value(V::err(V::UInt(4))));
    assert_eq!(vm.var("ST1.a", "n"), Some(&V::UInt(3)));
    assert!(vm.call("ST2", "ST1.a", "g", &[V::Buff(vec![1])]).ok());
    assert_eq!(vm.call("ST2", "ST1.a", "g", &[V::Buff(vec![1])]), CallResult::Value(V::err(V::UInt(9))));
    assert!(matches!(vm.call("ST2", "ST1.a", "g", &[V::Buff(vec![2])]), CallResult::Abort(_)));
    assert_eq!(vm.supply("ST1.a", "t"), 60);
    assert_eq!(vm.read("ST1.a", "h", &[]), Some(V::UInt(6)));
    assert_eq!(vm.read("ST1.a", "mm", &[V::none()]), Some(V::UInt(0)));
    let b: Vec<u8> = (0..16).collect();
    let mut r = b.clone();
    r.reverse();
    assert_eq!(vm.read("ST1.a", "r", &[V::Buff(b)]), Some(V::Buff(r)));
}
