//! Client-side properties T01..T05.
mod cli;
mod oracle;
mod plan;
mod reveal;
mod txbuild;

use simcore::driver::{drive, main_with};

fn main() {
    main_with(|p, cmd| {
        Some(match p {
            "T01" => drive(txbuild::TxBuild("T01"), p, cmd),
            "T02" => drive(txbuild::TxBuild("T02"), p, cmd),
            "T03" => drive(txbuild::TxBuild("T03"), p, cmd),
            "T04" => drive(cli::Cli, p, cmd),
            "T05" => drive(reveal::Reveal, p, cmd),
            _ => return None,
        })
    })
}
