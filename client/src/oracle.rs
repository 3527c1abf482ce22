//! What a finished client transaction has to look like.
use bdk::bitcoin::{Script, Transaction, TxOut};
use simworld::{
    btc::{vsize, Btc},
    script::verify_input,
};

/// Spends only coins of `own`, validly; pays exactly `want` first and then at
/// most change to `own`; leaves a sane fee. `fresh`: the coins must be unspent.
pub fn check_tx(
    btc: &Btc,
    tx: &Transaction,
    own: &Script,
    want: &[TxOut],
    fresh: bool,
) -> Result<u64, (&'static str, String)> {
    if tx.input.is_empty() {
        return Err(("no-inputs", String::new()));
    }
    let prev = btc
        .prevouts(tx)
        .map_err(|_| ("unknown-coin", "spends a coin that does not exist".to_string()))?;
    for (i, p) in prev.iter().enumerate() {
        if p.script_pubkey != *own {
            return Err(("foreign-coin", format!("input {i} is not the wallet's")));
        }
        verify_input(tx, i, &prev).map_err(|e| ("signature", format!("input {i}: {e}")))?;
    }
    for (i, w) in want.iter().enumerate() {
        match tx.output.get(i) {
            Some(o) if o == w => {}
            o => {
                return Err((
                    "outputs",
                    format!("output {i} is {o:?}, not {w:?}; all outputs: {:?}", tx.output),
                ))
            }
        }
    }
    let rest = &tx.output[want.len()..];
    if rest.len() > 1 {
        return Err(("extra-output", format!("{rest:?}")));
    }
    if let Some(o) = rest.iter().find(|o| o.script_pubkey != *own) {
        return Err(("foreign-change", format!("{o:?}")));
    }
    let inp: u64 = prev.iter().map(|o| o.value).sum();
    let out: u128 = tx.output.iter().map(|o| o.value as u128).sum();
    if out > inp as u128 {
        return Err(("overspent", format!("in {inp} out {out}")));
    }
    let fee = inp - out as u64;
    let size = vsize(tx);
    if fee > 20 * size + 1000 {
        return Err(("fee", format!("fee {fee} for {size} vbytes")));
    }
    match btc.check(tx) {
        Ok(_) => {}
        Err(e) if !fresh && (e.contains("missingorspent") || e.contains("conflict")) => {}
        Err(e) => return Err(("rejected", format!("a node refuses it: {e}"))),
    }
    Ok(fee)
}
