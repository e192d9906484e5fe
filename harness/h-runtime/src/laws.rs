//! The properties of the runtimes.
use crate::net::{interlay, kintsugi};
use pbt::{law, Prop};

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C58",
        rule: "emission, per network: an inflation of a non-zero supply that splits into three non-zero parts; or a history in which a block paid both annuities' takers and someone was paid out; or fees that went to an author",
        assumptions: &[
            "the configurations and the glue between the pallets are taken out of the two runtimes' sources; frame, orml and consensus are stand-ins (DESIGN.md)",
            "stakes as the reward pools hold them are taken from these (C14, C48)",
        ],
        laws: &[
            law!("inflation_kintsugi", 2000, 40_000, kintsugi::emission::inflation),
            law!("inflation_interlay", 2000, 40_000, interlay::emission::inflation),
            law!("emission_kintsugi", 600, 20_000, kintsugi::emission::emission),
            law!("emission_interlay", 600, 20_000, interlay::emission::emission),
            law!("fees_kintsugi", 2000, 10_000, kintsugi::emission::fees),
            law!("fees_interlay", 2000, 10_000, interlay::emission::fees),
        ],
        findings: &[],
    },
    Prop {
        id: "C59",
        rule: "a node's answer, per network: an estimate that is not zero, or a vault with nominators read back",
        assumptions: &["the interfaces' bodies are taken out of the two runtimes' sources and called directly"],
        laws: &[
            law!("escrow_rate_kintsugi", 2000, 20_000, kintsugi::reads::escrow_rate),
            law!("escrow_rate_interlay", 2000, 20_000, interlay::reads::escrow_rate),
            law!("farming_kintsugi", 2000, 20_000, kintsugi::reads::farming),
            law!("farming_interlay", 2000, 20_000, interlay::reads::farming),
            law!("vault_kintsugi", 1500, 20_000, kintsugi::reads::vault),
            law!("vault_interlay", 1500, 20_000, interlay::reads::vault),
            law!("pools_kintsugi", 300, 10_000, kintsugi::shop::pools),
            law!("pools_interlay", 300, 10_000, interlay::shop::pools),
            law!("markets_kintsugi", 500, 10_000, kintsugi::shop::markets),
            law!("markets_interlay", 500, 10_000, interlay::shop::markets),
            law!("requests_kintsugi", 1000, 20_000, kintsugi::shop::requests),
            law!("requests_interlay", 1000, 20_000, interlay::shop::requests),
            law!("backed_kintsugi", 1000, 20_000, kintsugi::shop::backed),
            law!("backed_interlay", 1000, 20_000, interlay::shop::backed),
        ],
        findings: &[],
    },
    Prop {
        id: "C60",
        rule: "per network, with a place that means a currency",
        assumptions: &[
            "the conversions, filters and traders' rates are taken out of the two runtimes' sources; the language between chains, the registry of assets and the executor are stand-ins (DESIGN.md)",
            "the registry has one asset at a place, and none at a place of the chain's own",
        ],
        laws: &[law!("places_kintsugi", 4000, 200_000, kintsugi::outside::places), law!("places_interlay", 4000, 200_000, interlay::outside::places)],
        findings: &[],
    },
    Prop {
        id: "C61",
        rule: "some pallets paused and others not; or a transaction with several outputs of which a contract is told one",
        assumptions: &["the filters and the extension are taken out of the runtimes' sources; what a contract is, is a stand-in", "what is paused is C52's, what a payment is, C17's and C18's"],
        laws: &[
            law!("filters_kintsugi", 2000, 100_000, kintsugi::outside::filters),
            law!("filters_interlay", 2000, 100_000, interlay::outside::filters),
            law!("contract", 4000, 200_000, crate::contract::payment),
        ],
        findings: &[],
    },
    Prop {
        id: "C62",
        rule: "per network, with a call that the root could make",
        assumptions: &["the origins are those of the two runtimes' configurations; who becomes root is the business of sudo, democracy (C53) and the committee"],
        laws: &[law!("governed_kintsugi", 600, 20_000, kintsugi::who::governed), law!("governed_interlay", 600, 20_000, interlay::who::governed)],
        findings: &[],
    },
];
