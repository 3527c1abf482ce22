//! The deployment plans of the repository: which source becomes which contract.
use std::{fs, path::Path, sync::OnceLock};

const DIR: &str = "/repo/romeo/asset-contract";

#[derive(Clone)]
pub struct Deployment {
    pub name: String,
    pub owner: String,
    pub contracts: Vec<(String, String)>,
}

fn field<'a>(line: &'a str, key: &str) -> Option<&'a str> {
    let l = line.trim().trim_start_matches("- ");
    l.strip_prefix(key)?.strip_prefix(':').map(|v| v.trim().trim_matches(|c| c == '"' || c == '\''))
}

fn read(net: &str) -> Result<Deployment, String> {
    let file = Path::new(DIR).join(format!("deployments/default.{net}-plan.yaml"));
    let text = fs::read_to_string(&file).map_err(|e| format!("{}: {e}", file.display()))?;
    let (mut name, mut owner, mut contracts) = (None, None, vec![]);
    for l in text.lines() {
        if let Some(n) = field(l, "contract-name") {
            name = Some(n.to_string());
        } else if let Some(o) = field(l, "expected-sender") {
            owner = Some(o.to_string());
        } else if let (Some(p), Some(n)) = (field(l, "path"), &name) {
            let src = fs::read_to_string(Path::new(DIR).join(p)).map_err(|e| format!("{p}: {e}"))?;
            contracts.push((n.clone(), src));
        }
    }
    let owner = owner.ok_or("no sender")?;
    if !contracts.iter().any(|c| c.0 == "asset") {
        return Err(format!("{net}: no asset contract"));
    }
    Ok(Deployment { name: net.into(), owner, contracts })
}

pub fn plans() -> Result<Vec<Deployment>, String> {
    static P: OnceLock<Result<Vec<Deployment>, String>> = OnceLock::new();
    P.get_or_init(|| Ok(vec![read("testnet")?, read("devnet")?])).clone()
}
