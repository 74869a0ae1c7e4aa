//! N01: settings hold what was asked for, and deployments or settings that make no sense are refused.
use crate::codes::*;
use crate::engine::*;
use crate::pool::*;
use crate::setup::*;
use crate::vensure;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

type Vals = BTreeMap<&'static str, Value>;
/// one field of a message and the values it is given: (value, is it valid on its own)
type Field = (&'static str, Vec<(Value, bool)>);
type Build = Arc<dyn Fn(&Vals) -> Value + Send + Sync>;
type Cross = Arc<dyn Fn(&Vals) -> bool + Send + Sync>;
/// what the queries of the new contract report against what was asked for
type Report = Arc<dyn Fn(&World, &str, &Vals) -> Vec<(Value, Value)> + Send + Sync>;
struct Spec {
    name: &'static str,
    code: u64,
    w: World,
    fields: Vec<Field>,
    /// how many fields differ from their first value at most
    dev: usize,
    build: Build,
    cross: Cross,
    report: Report,
}
fn addr(extra: &[&str]) -> Vec<(Value, bool)> {
    let mut v = vec![(json!(OWNER), true), (json!("wasm1zz"), true), (json!("Wasm1zz"), false), (json!(""), false)];
    v.extend(extra.iter().map(|x| (json!(x), true)));
    v
}
fn opt(mut v: Vec<(Value, bool)>) -> Vec<(Value, bool)> {
    v.insert(0, (Value::Null, true));
    v
}
fn one(a: &str) -> Vec<(Value, bool)> {
    vec![(json!(a), true), (json!("nowhere!"), false)]
}
/// denominations as the bank accepts them: a letter first, 3 to 128 letters, digits or / : . _ -
fn denoms() -> Vec<(Value, bool)> {
    let long = |n: usize| format!("u{}", "x".repeat(n - 1));
    vec![
        (json!(ASTRO), true),
        (json!("abc"), true),
        (json!("ab"), false),
        (json!("1abc"), false),
        (json!("ibc/A1:b.c_d-e"), true),
        (json!("ua b"), false),
        (json!("uaé"), false),
        (json!(long(128)), true),
        (json!(long(129)), false),
    ]
}
fn info(d: Value) -> Value {
    json!({"native_token": {"denom": d}})
}
fn assets() -> Vec<(Value, bool)> {
    let mut v: Vec<(Value, bool)> = denoms().into_iter().map(|(d, ok)| (info(d), ok)).collect();
    v.push((json!({"token": {"contract_addr": "wasm1token"}}), true));
    v.push((json!({"token": {"contract_addr": "terra1token"}}), false));
    v
}
fn cases(fields: &[Field], dev: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    for (_, o) in fields {
        out = out
            .into_iter()
            .flat_map(|(c, d)| {
                (0..o.len()).filter(move |i| *i == 0 || d < dev).map(move |i| {
                    let mut c = c.clone();
                    c.push(i);
                    (c, d + (i > 0) as usize)
                })
            })
            .collect();
    }
    out.into_iter().map(|x| x.0).collect()
}
fn run(s: Spec) -> Box<dyn Runner> {
    let cs = cases(&s.fields, s.dev);
    grid(&format!("N01:{}", s.name), cs, move |c: &Vec<usize>, cov: &mut Cov| {
        let mut v = Vals::new();
        let mut ok = c.len() == s.fields.len();
        for (i, (f, o)) in c.iter().zip(&s.fields) .map(|(i, f)| (i, (f.0, &f.1))) {
            let x = o.get(*i).ok_or("no such value".to_string())?;
            ok &= x.1;
            v.insert(f, x.0.clone());
        }
        ok = ok && (s.cross)(&v);
        let mut w = s.w.clone();
        let msg = (s.build)(&v);
        let r = w.init(OWNER, s.code, &msg, &[]);
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        vensure!(r.is_ok() == ok, "accepted", "{} {msg} should be {}: {:?}", s.name, if ok { "accepted" } else { "refused" }, r.err());
        if let Ok(a) = r {
            for (got, want) in (s.report)(&w, &a, &v) {
                vensure!(got == want, "reported", "{} {msg} reports {got} instead of {want}", s.name);
            }
        }
        Ok(())
    })
}
/// the fields of the message are the fields of the settings, absent ones left out
fn plain(v: &Vals) -> Value {
    Value::Object(v.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.to_string(), x.clone())).collect())
}
fn q(w: &World, a: &str, m: &str) -> Value {
    w.q(a, json!({m: {}})).unwrap_or_else(|e| json!({"error": e}))
}
fn params(c: &Value) -> Value {
    c["params"].as_str().map(|s| serde_json::from_slice(cosmwasm_std::Binary::from_base64(s).unwrap().as_slice()).unwrap()).unwrap_or(Value::Null)
}

fn base() -> (World, String, String) {
    let mut w = World::new();
    w.time = ECO_TIME;
    for d in ["uaaa", "ubbb", ASTRO] {
        w.fund(SEED, d, 1 << 60);
    }
    let reg = new_registry(&mut w, &["uaaa", "ubbb", "uccc", "uddd", "ueee", "ufff", ASTRO].map(|d| (d.to_string(), 6u8)));
    let f = new_factory(&mut w, &reg, KINDS.iter().map(|k| pair_config(*k, 30, 3333)).collect(), None, None);
    (w, reg, f)
}

fn tokenomics(t: bool) -> Vec<Spec> {
    let (w, _, _) = base();
    let none: Cross = Arc::new(|_| true);
    let plainb: Build = Arc::new(plain);
    let all = usize::MAX;
    let mut out = vec![];
    out.push(Spec {
        name: "incentives",
        code: INCENTIVES,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("owner", addr(&[])),
            ("factory", one("wasm1factory")),
            ("astro_token", assets()),
            ("vesting_contract", one("wasm1vesting")),
            ("guardian", opt(addr(&[]))),
            (
                "incentivization_fee_info",
                opt(vec![
                    (json!({"fee_receiver": FEE, "fee": {"denom": "uaaa", "amount": "5"}}), true),
                    (json!({"fee_receiver": FEE, "fee": {"denom": "uaaa", "amount": "0"}}), true),
                    (json!({"fee_receiver": "fee", "fee": {"denom": "uaaa", "amount": "5"}}), false),
                    (json!({"fee_receiver": FEE, "fee": {"denom": "u", "amount": "5"}}), false),
                ]),
            ),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let mut e = json!({"generator_controller": null, "astro_per_second": "0", "total_alloc_points": "0", "token_transfer_gas_limit": null});
            for (k, x) in v {
                e[*k] = x.clone();
            }
            vec![(q(w, a, "config"), e), (w.q(a, json!({"active_pools": {}})).unwrap(), json!([]))]
        }),
    });
    out.push(Spec {
        name: "maker",
        code: MAKER,
        w: w.clone(),
        dev: if t { 5 } else { 4 },
        fields: vec![
            ("owner", addr(&[])),
            ("factory_contract", one("wasm1factory")),
            ("astro_token", assets()),
            ("staking_contract", vec![(json!("wasm1staking"), true), (Value::Null, true), (json!("staking"), false)]),
            ("governance_contract", vec![(json!("wasm1gov"), true), (Value::Null, true), (json!("gov"), false)]),
            ("governance_percent", opt(vec![(json!("0"), true), (json!("1"), true), (json!("100"), true), (json!("101"), false)])),
            ("default_bridge", opt(vec![(native("uusd").info(), true), (native("u").info(), false), (json!({"token": {"contract_addr": "wasm1bridge"}}), true)])),
            ("max_spread", opt(vec![(json!("0"), false), (json!("0.000000000000000001"), true), (json!("0.5"), true), (json!("0.500000000000000001"), false)])),
            (
                "second_receiver_params",
                opt([("0", false), ("1", true), ("50", true), ("51", false)]
                    .iter()
                    .map(|(c, ok)| (json!({"second_fee_receiver": FEE, "second_receiver_cut": c}), *ok))
                    .chain([(json!({"second_fee_receiver": "second", "second_receiver_cut": "7"}), false)])
                    .collect()),
            ),
            ("collect_cooldown", opt(vec![(json!(29), false), (json!(30), true), (json!(600), true), (json!(601), false)])),
        ],
        build: plainb.clone(),
        cross: Arc::new(|v| {
            let (s, g) = (&v["staking_contract"], &v["governance_contract"]);
            !(s.is_null() && (g.is_null() || v["governance_percent"] != json!("100")))
        }),
        report: Arc::new(|w, a, v| {
            let mut e = json!({"dev_fund_conf": null, "remainder_reward": "0", "pre_upgrade_astro_amount": "0"});
            for (k, x) in v {
                match *k {
                    "collect_cooldown" => {}
                    "second_receiver_params" => e["second_receiver_cfg"] = x.clone(),
                    "max_spread" => e["max_spread"] = if x.is_null() { json!("0.05") } else { x.clone() },
                    "governance_percent" => e["governance_percent"] = if x.is_null() { json!("0") } else { x.clone() },
                    k => e[k] = x.clone(),
                }
            }
            vec![(q(w, a, "config"), e), (q(w, a, "bridges"), json!([])), (q(w, a, "query_seize_config"), json!({"receiver": "", "seizable_assets": []}))]
        }),
    });
    out.push(Spec {
        name: "vesting",
        code: VESTING,
        w: w.clone(),
        dev: all,
        fields: vec![("owner", addr(&[])), ("vesting_token", assets())],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let e = plain(v);
            vec![(q(w, a, "config"), e), (w.q(a, json!({"vesting_accounts": {}})).unwrap(), json!({"vesting_accounts": []}))]
        }),
    });
    out.push(Spec {
        name: "staking",
        code: STAKING,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("deposit_token_denom", vec![(json!(ASTRO), true), (json!("uaaa"), true), (json!("unothing"), false)]),
            ("token_factory_addr", vec![(json!(TF_MODULE), true), (json!("module"), false)]),
            ("tracking_admin", addr(&[])),
            ("tracking_code_id", vec![(json!(TRACKER_V1), true), (json!(9999), false)]),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let x = format!("factory/{a}/xASTRO");
            let t = q(w, a, "tracker_config");
            let tr = t["tracker_addr"].as_str().unwrap_or("").to_string();
            let c = w.contracts.get(tr.as_str());
            vec![
                (q(w, a, "config"), json!({"astro_denom": v["deposit_token_denom"], "xastro_denom": x})),
                (t, json!({"code_id": v["tracking_code_id"], "admin": v["tracking_admin"], "token_factory_addr": v["token_factory_addr"], "tracker_addr": tr})),
                (json!(c.map(|c| c.code)), v["tracking_code_id"].clone()),
                (json!(c.map(|c| c.admin.clone())), json!(Some(v["tracking_admin"].as_str()))),
                (json!(w.q(&tr, json!({"config": {}})).map(|c| c["tracked_denom"].clone()).ok()), json!(x)),
                (json!(w.tf.get(&x).map(|t| t.hook.clone())), json!(tr)),
                (json!(w.tf.get(&x).map(|t| t.creator.clone())), json!(a)),
            ]
        }),
    });
    let px = w.clone();
    out.push(Spec {
        name: "xastro",
        code: XASTRO_TOKEN,
        w: px,
        dev: if t { 5 } else { 3 },
        fields: xastro_fields(),
        build: Arc::new(|v| {
            let mut m = plain(v);
            let cap = v["cap"].clone();
            m.as_object_mut().unwrap().remove("cap");
            if !v["mint"].is_null() {
                m["mint"] = json!({"minter": v["mint"], "cap": cap});
            }
            m
        }),
        cross: Arc::new(|v| {
            let total: u128 = v["initial_balances"].as_array().unwrap().iter().map(|b| b["amount"].as_str().unwrap().parse::<u128>().unwrap()).sum();
            v["mint"].is_null() || v["cap"].is_null() || total <= v["cap"].as_str().unwrap().parse().unwrap()
        }),
        report: Arc::new(|w, a, v| {
            let l = v["initial_balances"].as_array().unwrap();
            let total: u128 = l.iter().map(|b| b["amount"].as_str().unwrap().parse::<u128>().unwrap()).sum();
            let mut out = vec![
                (q(w, a, "token_info"), json!({"name": v["name"], "symbol": v["symbol"], "decimals": v["decimals"], "total_supply": total.to_string()})),
                (q(w, a, "minter"), if v["mint"].is_null() { Value::Null } else { json!({"minter": v["mint"], "cap": v["cap"]}) }),
            ];
            for b in l {
                out.push((w.q(a, json!({"balance": {"address": b["address"]}})).unwrap(), json!({"balance": b["amount"]})));
            }
            let (info, logo) = marketing_of(&v["marketing"]);
            out.push((q(w, a, "marketing_info"), info));
            out.push((w.q(a, json!({"download_logo": {}})).unwrap_or(Value::Null), logo));
            out
        }),
    });
    out
}

fn bin(b: &[u8]) -> Value {
    json!(cosmwasm_std::Binary(b.to_vec()).to_base64())
}
/// logos with whether they are acceptable
pub fn logos() -> Vec<(Value, bool)> {
    const PNG: [u8; 8] = [0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a];
    let pad = |head: &[u8], n: usize| {
        let mut v = head.to_vec();
        v.resize(n, b' ');
        v
    };
    let svg = |b: &[u8]| json!({"embedded": {"svg": bin(b)}});
    let png = |b: &[u8]| json!({"embedded": {"png": bin(b)}});
    const X: &[u8] = br#"<?xml version="1.0"?><svg></svg>"#;
    let mut bad = PNG;
    bad[7] = b'x';
    vec![
        (json!({"url": "logo.url"}), true),
        (svg(X), true),
        (svg(&pad(X, 5 * 1024)), true),
        (svg(&pad(X, 5 * 1024 + 1)), false),
        (svg(b"<svg></svg>"), false),
        (svg(b"<?xml version=\"1.0\"><svg></svg>"), false),
        (svg(b"<?xmlversion?>"), false),
        (svg(b""), false),
        (png(&pad(&PNG, 9)), true),
        (png(&PNG), true),
        (png(&pad(&PNG, 5 * 1024)), true),
        (png(&pad(&PNG, 5 * 1024 + 1)), false),
        (png(&bad), false),
        (png(&PNG[..7]), false),
        (png(X), false),
    ]
}
/// what the token reports for marketing settings given at the start: the marketing record and the logo
pub fn marketing_of(m: &Value) -> (Value, Value) {
    let mut e = json!({"project": null, "description": null, "marketing": null, "logo": null});
    let mut dl = Value::Null;
    for k in ["project", "description", "marketing"] {
        e[k] = m[k].clone();
    }
    let l = &m["logo"];
    if let Some(u) = l.get("url") {
        e["logo"] = json!({"url": u});
    } else if let Some(x) = l.get("embedded") {
        e["logo"] = json!("embedded");
        dl = if let Some(d) = x.get("svg") { json!({"mime_type": "image/svg+xml", "data": d}) } else { json!({"mime_type": "image/png", "data": x["png"]}) };
    }
    (e, dl)
}
fn xastro_fields() -> Vec<Field> {
    let s = |n: usize| json!("n".repeat(n));
    let bal = |v: &[(&str, u128)]| json!(v.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>());
    let mut mk = vec![
        (Value::Null, true),
        (json!({"project": null, "description": null, "marketing": null, "logo": null}), true),
        (json!({"project": "p", "description": null, "marketing": ALICE, "logo": null}), true),
        (json!({"project": null, "description": "d", "marketing": "alice", "logo": null}), false),
    ];
    for (l, ok) in logos() {
        mk.push((json!({"project": "p", "description": "d", "marketing": BOB, "logo": l}), ok));
    }
    vec![
        ("name", vec![(json!("xAstro"), true), (s(2), false), (s(3), true), (s(50), true), (s(51), false), (json!("é"), false)]),
        (
            "symbol",
            vec![
                (json!("xASTRO"), true),
                (json!("ab"), false),
                (json!("a-Z"), true),
                (json!("abcdefghijkl"), true),
                (json!("abcdefghijklm"), false),
                (json!("abc1"), false),
                (json!("ab c"), false),
                (json!("ab_c"), false),
            ],
        ),
        ("decimals", vec![(json!(6), true), (json!(0), true), (json!(18), true), (json!(19), false), (json!(255), false)]),
        (
            "initial_balances",
            vec![
                (bal(&[]), true),
                (bal(&[(ALICE, 700), (BOB, 300)]), true),
                (bal(&[(ALICE, 700), (BOB, 301)]), true),
                (bal(&[(ALICE, 1), (BOB, 2), (ALICE, 3)]), false),
                (bal(&[("Alice", 1)]), false),
                (bal(&[(ALICE, 0)]), true),
            ],
        ),
        ("mint", opt(vec![(json!(MINTER), true), (json!("minter"), false)])),
        ("cap", vec![(Value::Null, true), (json!("1000"), true), (json!("0"), true)]),
        ("marketing", mk),
    ]
}

fn periphery() -> Vec<Spec> {
    let (mut w, reg, f) = base();
    let none: Cross = Arc::new(|_| true);
    let plainb: Build = Arc::new(plain);
    let all = usize::MAX;
    let mut out = vec![];
    out.push(Spec {
        name: "router",
        code: ROUTER,
        w: w.clone(),
        dev: all,
        fields: vec![("astroport_factory", addr(&[&f]))],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| vec![(q(w, a, "config"), plain(v))]),
    });
    out.push(Spec {
        name: "registry",
        code: REGISTRY,
        w: w.clone(),
        dev: all,
        fields: vec![("owner", addr(&[]))],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| vec![(q(w, a, "config")["owner"].clone(), v["owner"].clone()), (q(w, a, "native_tokens"), json!([]))]),
    });
    out.push(Spec {
        name: "fee_granter",
        code: FEE_GRANTER,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("owner", addr(&[])),
            (
                "admins",
                vec![
                    (json!([]), true),
                    (json!([FGADMIN]), true),
                    (json!([FGADMIN, ALICE]), true),
                    (json!([FGADMIN, ALICE, BOB]), false),
                    (json!([FGADMIN, FGADMIN]), false),
                    (json!(["admin"]), false),
                ],
            ),
            ("gas_denom", denoms()),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let mut c = q(w, a, "config");
            let mut e = plain(v);
            for x in [&mut c, &mut e] {
                if let Some(l) = x["admins"].as_array_mut() {
                    l.sort_by_key(|x| x.to_string());
                }
            }
            vec![(c, e)]
        }),
    });
    out.push(Spec {
        name: "tracker",
        code: TRACKER,
        w: w.clone(),
        dev: all,
        fields: vec![("tokenfactory_module_address", addr(&[TF_MODULE])), ("tracked_denom", denoms()), ("track_over_seconds", vec![(json!(false), true), (json!(true), true)])],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            vec![(
                q(w, a, "config"),
                json!({"tracked_denom": v["tracked_denom"], "token_factory_module": v["tokenfactory_module_address"], "track_over_seconds": v["track_over_seconds"]}),
            )]
        }),
    });
    out.push(Spec {
        name: "whitelist",
        code: WHITELIST,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("admins", vec![(json!([]), true), (json!([ALICE]), true), (json!([ALICE, BOB]), true), (json!(["alice"]), false), (json!([ALICE, "bob"]), false)]),
            ("mutable", vec![(json!(true), true), (json!(false), true)]),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| vec![(q(w, a, "admin_list"), plain(v))]),
    });
    for (name, code) in [("converter", CONVERTER), ("converter-neutron", CONVERTER_NEUTRON)] {
        out.push(Spec {
            name,
            code,
            w: w.clone(),
            dev: all,
            fields: vec![
                ("new_astro_denom", denoms()),
                ("old_astro_asset_info", {
                    let mut v = vec![(info(json!("ibc/OLDASTRO")), true), (info(json!("uastro2")), false), (info(json!("ibc_OLD")), false), (info(json!("factory/ibc/old")), false)];
                    v.extend(assets().into_iter().map(|(a, ok)| {
                        let native = a["native_token"]["denom"].as_str().map(|d| d.starts_with("ibc/")).unwrap_or(true);
                        (a, ok && native)
                    }));
                    v
                }),
                ("outpost_burn_params", opt(vec![(json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"}), true)])),
            ],
            build: plainb.clone(),
            cross: Arc::new(|v| {
                let o = &v["old_astro_asset_info"];
                let b = !v["outpost_burn_params"].is_null();
                o["native_token"]["denom"] != v["new_astro_denom"] && b == o.get("native_token").is_some()
            }),
            report: Arc::new(|w, a, v| {
                let e: Value = Value::Object(v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect());
                vec![(q(w, a, "config"), e)]
            }),
        });
    }
    // an oracle wants a pool that exists
    let mut cfg = Cfg::new(Kind::Xyk);
    cfg.seed = vec![1_000_000, 3_000_000];
    cfg.share = 0;
    create_pool(&mut w, &cfg, &f, None, &[native("uaaa"), native("ubbb")]);
    cfg.kind = Kind::Tax;
    create_pool(&mut w, &cfg, &f, None, &[native("uaaa"), native(ASTRO)]);
    let infos = |l: &[&str]| json!(l.iter().map(|d| native(d).info()).collect::<Vec<_>>());
    out.push(Spec {
        name: "oracle",
        code: ORACLE,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("factory_contract", vec![(json!(f), true), (json!(reg), false), (json!("factory"), false)]),
            (
                "asset_infos",
                vec![
                    (infos(&["uaaa", "ubbb"]), true),
                    (infos(&["ubbb", "uaaa"]), true),
                    (infos(&["uaaa", "uccc"]), false),
                    (infos(&["uaaa"]), false),
                    (infos(&[]), false),
                    (infos(&["uaaa", "uaaa"]), false),
                    (infos(&["uaaa", "ub"]), false),
                ],
            ),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        // prices for the tokens of that pool only
        report: Arc::new(move |w, a, v| {
            let mut w = w.clone();
            let c = |w: &World, d: &str| w.q(a, json!({"consult": {"token": native(d).info(), "amount": "1000000"}})).unwrap_or(Value::Null);
            let mut out = vec![(c(&w, "uccc"), Value::Null)];
            w.advance(86_400, 1);
            w.exec_json(ALICE, a, json!({"update": {}}), &[]).unwrap();
            out.push((c(&w, "uaaa"), json!([[native("ubbb").info(), "3000000"]])));
            out.push((c(&w, "ubbb"), json!([[native("uaaa").info(), "333333"]])));
            out.push((c(&w, "uccc"), Value::Null));
            let _ = v;
            out
        }),
    });
    // the pool of ASTRO and xASTRO
    let st = new_staking(&mut w, ASTRO);
    let x = w.q(&st, json!({"config": {}})).unwrap()["xastro_denom"].as_str().unwrap().to_string();
    out.push(Spec {
        name: "pair_xastro",
        code: PAIR_XASTRO,
        w: w.clone(),
        dev: all,
        fields: vec![
            (
                "asset_infos",
                vec![
                    (infos(&[ASTRO, &x]), true),
                    (infos(&[&x, ASTRO]), true),
                    (infos(&[ASTRO, "uaaa"]), false),
                    (infos(&["uaaa", &x]), false),
                    (infos(&[ASTRO, ASTRO]), false),
                    (infos(&[ASTRO, &x, "uaaa"]), false),
                    (infos(&[ASTRO]), false),
                ],
            ),
            ("factory_addr", vec![(json!(f), true), (json!("factory"), false)]),
            ("init_params", vec![(json!(b64(&json!({"staking": st}))), true), (Value::Null, false), (json!(b64(&json!({}))), false), (json!(b64(&json!({"staking": f}))), false)]),
        ],
        build: Arc::new(|v| {
            let mut m = plain(v);
            m["pair_type"] = json!({"custom": "astroport-pair-xastro"});
            m["token_code_id"] = json!(0);
            m
        }),
        cross: none.clone(),
        report: Arc::new({
            let f = f.clone();
            move |w, a, v| {
            vec![
                (
                    q(w, a, "pair"),
                    json!({"asset_infos": v["asset_infos"], "contract_addr": a, "liquidity_token": "", "pair_type": {"custom": "astroport-pair-xastro"}}),
                ),
                (q(w, a, "config")["factory_addr"].clone(), json!(f)),
            ]
            }
        }),
    });
    // the factory
    let ty = |l: &[(Kind, u16, u16)]| json!(l.iter().map(|(k, a, b)| pair_config(*k, *a, *b)).collect::<Vec<_>>());
    out.push(Spec {
        name: "factory",
        code: FACTORY,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("owner", addr(&[])),
            (
                "pair_configs",
                vec![
                    (ty(&[(Kind::Xyk, 30, 3333)]), true),
                    (ty(&[]), true),
                    (ty(&[(Kind::Xyk, 10_000, 10_000), (Kind::Stable, 0, 0)]), true),
                    (ty(&[(Kind::Xyk, 10_001, 0)]), false),
                    (ty(&[(Kind::Xyk, 0, 10_001)]), false),
                    (ty(&[(Kind::Xyk, 30, 0), (Kind::Stable, 5, 10_001)]), false),
                    (ty(&[(Kind::Xyk, 30, 0), (Kind::Stable, 5, 0), (Kind::Xyk, 31, 0)]), false),
                ],
            ),
            ("token_code_id", vec![(json!(CW20), true), (json!(77), true)]),
            ("whitelist_code_id", vec![(json!(WHITELIST), true), (json!(78), true)]),
            ("coin_registry_address", one(&reg)),
            ("fee_address", opt(one(FEE))),
            ("generator_address", opt(one("wasm1generator"))),
            (
                "tracker_config",
                opt(vec![(json!({"code_id": TRACKER, "token_factory_addr": TF_MODULE}), true), (json!({"code_id": TRACKER, "token_factory_addr": "wasm1other"}), true), (json!({"code_id": TRACKER, "token_factory_addr": "module"}), false)]),
            ),
        ],
        build: plainb.clone(),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let mut c = q(w, a, "config");
            let sort = |x: &mut Value| {
                if let Some(l) = x.as_array_mut() {
                    l.sort_by_key(|c| c["pair_type"].to_string());
                }
            };
            sort(&mut c["pair_configs"]);
            let mut e = json!({});
            for (k, x) in v.iter().filter(|(k, _)| **k != "tracker_config") {
                e[*k] = x.clone();
            }
            sort(&mut e["pair_configs"]);
            vec![(c, e), (w.q(a, json!({"tracker_config": {}})).unwrap_or(Value::Null), v["tracker_config"].clone()), (w.q(a, json!({"pairs": {}})).unwrap(), json!({"pairs": []}))]
        }),
    });
    out
}

fn pools(t: bool) -> Vec<Spec> {
    let (mut w, _, f) = base();
    let cw = new_cw20(&mut w, "Token", 6, &[(ALICE, 1000)]);
    let none: Cross = Arc::new(|_| true);
    let infos = |l: &[&str]| json!(l.iter().map(|d| if d.starts_with("wasm1") { json!({"token": {"contract_addr": d}}) } else { native(d).info() }).collect::<Vec<_>>());
    let two = |cw20: bool, decimals: bool| {
        let mut v = vec![
            (infos(&["uaaa", "ubbb"]), true),
            (infos(&["ubbb", "uaaa"]), true),
            (infos(&["uaaa", &cw]), cw20),
            (infos(&[&cw, &cw]), false),
            (infos(&["uaaa", "uaaa"]), false),
            (infos(&["uaaa"]), false),
            (infos(&[]), false),
            (infos(&["uaaa", "ub"]), false),
            (infos(&["1ua", "ubbb"]), false),
            (json!([native("uaaa").info(), {"token": {"contract_addr": "Token"}}]), false),
        ];
        // only pools that compare amounts need the decimals
        v.push((infos(&["uaaa", "unregistered"]), !decimals));
        v
    };
    let fac = vec![(json!(f), true), (json!("factory"), false)];
    let build = |names: &'static [&'static str]| -> Build {
        Arc::new(move |v: &Vals| {
            let mut m = json!({"pair_type": {"custom": "mine"}, "token_code_id": CW20, "factory_addr": v["factory_addr"], "asset_infos": v["asset_infos"]});
            if !names.is_empty() {
                let p: Value = Value::Object(names.iter().filter(|n| !v[*n].is_null()).map(|n| (n.to_string(), v[n].clone())).collect());
                m["init_params"] = json!(b64(&p));
            }
            if v.get("init_params").is_some_and(|x| !x.is_null()) {
                m["init_params"] = v["init_params"].clone();
            }
            m
        })
    };
    fn pair(w: &World, a: &str, v: &Vals, ty: &str) -> Vec<(Value, Value)> {
        let lp = format!("factory/{a}/astroport/share");
        let mut out = vec![
            (q(w, a, "pair"), json!({"asset_infos": v["asset_infos"], "contract_addr": a, "liquidity_token": lp, "pair_type": {"custom": ty}})),
            (q(w, a, "config")["factory_addr"].clone(), v["factory_addr"].clone()),
            (json!(w.tf.get(&lp).map(|t| t.creator.clone())), json!(a)),
            (q(w, a, "pool")["total_share"].clone(), json!("0")),
        ];
        for (i, x) in v["asset_infos"].as_array().unwrap().iter().enumerate() {
            out.push((q(w, a, "pool")["assets"][i].clone(), json!({"info": x, "amount": "0"})));
        }
        out
    }
    let bools = vec![(Value::Null, true), (json!(false), true), (json!(true), true)];
    let all = usize::MAX;
    let mut out = vec![];
    out.push(Spec {
        name: "pair",
        code: PAIR,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("asset_infos", two(true, false)),
            ("factory_addr", fac.clone()),
            ("init_params", vec![(Value::Null, true), (json!(b64(&json!({"track_asset_balances": true}))), true), (json!(b64(&json!({"track_asset_balances": false}))), true), (json!(b64(&json!({"track_asset_balances": 1}))), false)]),
        ],
        build: build(&[]),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let mut o = pair(w, a, v, "mine");
            let t = v["init_params"] == json!(b64(&json!({"track_asset_balances": true})));
            o.push((params(&q(w, a, "config")), json!({"track_asset_balances": t, "fee_share": null})));
            o
        }),
    });
    let rec = |r: &str, a: &str| json!({"tax_rate": r, "tax_recipient": a});
    out.push(Spec {
        name: "pair_tax",
        code: SALE_TAX,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("asset_infos", two(true, false)),
            ("factory_addr", fac.clone()),
            ("tax_config_admin", one(TAXADM)),
            (
                "tax_configs",
                vec![
                    (json!({}), true),
                    (json!({"uaaa": rec("0.5", TAXR)}), true),
                    (json!({"uaaa": rec("0.500000000000000001", TAXR)}), false),
                    (json!({"uaaa": rec("0.1", "taxes")}), false),
                    (json!({"uaaa": rec("0", TAXR), "ubbb": rec("0.01", BOB)}), true),
                    (json!({"uccc": rec("0.1", TAXR)}), false),
                    (json!({"uaaa": rec("0.1", TAXR), "uccc": rec("0.1", TAXR)}), false),
                    (json!({"ua": rec("0.1", TAXR)}), false),
                    (json!({cw.as_str(): rec("0.1", TAXR)}), false),
                ],
            ),
            ("track_asset_balances", vec![(json!(true), true), (json!(false), true)]),
        ],
        build: build(&["tax_config_admin", "tax_configs", "track_asset_balances"]),
        cross: Arc::new(|v| {
            // taxed tokens are tokens of the pair
            v["tax_configs"].as_object().unwrap().keys().all(|d| v["asset_infos"].as_array().unwrap().contains(&native(d).info()))
        }),
        report: Arc::new(|w, a, v| {
            let ty = q(w, a, "pair")["pair_type"]["custom"].as_str().unwrap_or("").to_string();
            let mut o = pair(w, a, v, &ty);
            let p = params(&q(w, a, "config"));
            for k in ["tax_config_admin", "tax_configs", "track_asset_balances"] {
                o.push((p[k].clone(), v[k].clone()));
            }
            o
        }),
    });
    out.push(Spec {
        name: "pair_stable",
        code: STABLE,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("asset_infos", { let mut v = two(true, true); v.push((infos(&["uaaa", "ubbb", "uccc"]), false)); v }),
            ("factory_addr", fac.clone()),
            ("amp", vec![(json!(10), true), (json!(0), false), (json!(1), true), (json!(1_000_000), true), (json!(1_000_001), false), (Value::Null, false)]),
            ("owner", opt(addr(&[]))),
        ],
        build: build(&["amp", "owner"]),
        cross: none.clone(),
        report: Arc::new(|w, a, v| {
            let mut o = pair(w, a, v, "mine");
            let c = q(w, a, "config");
            o.push((c["owner"].clone(), if v["owner"].is_null() { json!(OWNER) } else { v["owner"].clone() }));
            let p = params(&c);
            o.push((p["amp"].clone(), json!(format!("{}", v["amp"]))));
            o.push((p["fee_share"].clone(), Value::Null));
            o
        }),
    });
    const TINY: &str = "0.000000000000000001";
    let d = |l: &[(&str, bool)]| l.iter().map(|(x, ok)| (json!(x), *ok)).collect::<Vec<_>>();
    const PP: [&str; 10] = ["amp", "gamma", "mid_fee", "out_fee", "fee_gamma", "repeg_profit_threshold", "min_price_scale_delta", "price_scale", "ma_half_time", "track_asset_balances"];
    out.push(Spec {
        name: "pair_pcl",
        code: PCL,
        w: w.clone(),
        dev: if t { 5 } else { 3 },
        fields: vec![
            ("asset_infos", { let mut v = two(true, true); v.push((infos(&["uaaa", "ubbb", "uccc"]), false)); v }),
            ("factory_addr", fac.clone()),
            ("amp", d(&[("40", true), ("0.1", true), ("0.099999999999999999", false), ("100000", true), ("100000.000000000000000001", false), ("0", false)])),
            ("gamma", d(&[("0.0001", true), ("0.00000001", true), ("0.000000009999999999", false), ("0.02", true), ("0.020000000000000001", false)])),
            ("mid_fee", d(&[("0.0026", true), ("0.00005", true), ("0.000049999999999999", false), ("0.01", true), ("0.010000000000000001", false), ("0", false)])),
            ("out_fee", d(&[("0.0045", true), ("0.00005", true), ("0.0026", true), ("0.002600000000000001", true), ("0.01", true), ("0.010000000000000001", false)])),
            ("fee_gamma", d(&[("0.00023", true), ("0", true), ("1", true), ("1.000000000000000001", false)])),
            ("repeg_profit_threshold", d(&[("0.000002", true), ("0", true), ("0.01", true), ("0.010000000000000001", false)])),
            ("min_price_scale_delta", d(&[("0.000146", true), ("0", true), ("1", true), ("1.000000000000000001", false)])),
            ("price_scale", d(&[("1.5", true), ("0", false), (TINY, true), ("1000000000", true)])),
            ("ma_half_time", vec![(json!(600), true), (json!(0), false), (json!(1), true), (json!(604_800), true), (json!(604_801), false)]),
            ("track_asset_balances", bools),
        ],
        build: build(&PP),
        cross: Arc::new(|v| {
            let n = |k: &str| v[k].as_str().unwrap().parse::<cosmwasm_std::Decimal>().unwrap();
            n("out_fee") > n("mid_fee")
        }),
        report: Arc::new(|w, a, v| {
            let mut o = pair(w, a, v, "mine");
            let c = q(w, a, "config");
            o.push((c["owner"].clone(), json!(OWNER)));
            let p = params(&c);
            for k in PP {
                let e = if k == "track_asset_balances" && v[k].is_null() { json!(false) } else { v[k].clone() };
                o.push((p[k].clone(), e));
            }
            o
        }),
    });
    out.push(Spec {
        name: "pair_transmuter",
        code: TRANSMUTER,
        w: w.clone(),
        dev: all,
        fields: vec![
            ("asset_infos", {
                let mut v = two(false, true);
                for (l, ok) in [
                    (&["uaaa", "ubbb", "uccc"][..], true),
                    (&["uaaa", "ubbb", "uaaa"], false),
                    (&["uaaa", "ubbb", "uccc", "uddd", "ueee"], true),
                    (&["uaaa", "ubbb", "uccc", "uddd", "ueee", "ufff"], false),
                ] {
                    v.push((infos(l), ok));
                }
                v
            }),
            ("factory_addr", fac),
        ],
        build: build(&[]),
        cross: none,
        report: Arc::new(|w, a, v| pair(w, a, v, "transmuter")),
    });
    out
}

// ---------------------------------------------------------------- changes of settings, one after another
#[derive(Clone, Debug, Serialize, Deserialize)]
struct UOp {
    by: String,
    msg: Value,
}
#[derive(Clone)]
struct US {
    w: World,
    c: Value,
}
type Apply = Arc<dyn Fn(&World, &Value, &Value) -> Option<Value> + Send + Sync>;
struct UM {
    name: &'static str,
    w0: World,
    addr: String,
    fields: Vec<Field>,
    pairs: Vec<(&'static str, &'static str)>,
    apply: Apply,
    extra: Arc<dyn Fn(&World, &Value) -> Vec<(Value, Value)> + Send + Sync>,
}
impl Model for UM {
    type S = US;
    type Op = UOp;
    fn name(&self) -> String {
        format!("N01:{}", self.name)
    }
    fn init(&self) -> US {
        US { w: self.w0.clone(), c: q(&self.w0, &self.addr, "config") }
    }
    fn ops(&self, _: &US, _: usize) -> Vec<UOp> {
        let mut v = vec![UOp { by: OWNER.into(), msg: json!({}) }];
        for (f, o) in &self.fields {
            for (x, _) in o {
                v.push(UOp { by: OWNER.into(), msg: json!({*f: x}) });
            }
            v.push(UOp { by: ALICE.into(), msg: json!({*f: o[0].0}) });
        }
        let get = |f: &str| &self.fields.iter().find(|x| x.0 == f).unwrap().1;
        for (a, b) in &self.pairs {
            for (x, _) in get(a) {
                for (y, _) in get(b) {
                    v.push(UOp { by: OWNER.into(), msg: json!({*a: x, *b: y}) });
                }
            }
        }
        v
    }
    fn step(&self, s: &US, op: &UOp, cov: &mut Cov) -> Result<Option<US>, Viol> {
        let mut n = s.clone();
        let mut ok = op.by == OWNER;
        for (k, x) in op.msg.as_object().unwrap() {
            ok &= self.fields.iter().find(|f| f.0 == k).and_then(|f| f.1.iter().find(|o| o.0 == *x)).is_some_and(|o| o.1);
        }
        let want = if ok { (self.apply)(&s.w, &s.c, &op.msg) } else { None };
        let before = balances(&s.w);
        let r = n.w.exec_json(&op.by, &self.addr, json!({"update_config": op.msg}), &[]);
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        vensure!(r.is_ok() == want.is_some(), "accepted", "{op:?} with {} should be {}: {:?}", s.c, if want.is_some() { "accepted" } else { "refused" }, r.err());
        vensure!(balances(&n.w) == before, "moved", "{op:?} moved {:?}", diff(&before, &balances(&n.w)));
        Ok(want.map(|c| {
            n.c = c;
            n
        }))
    }
    fn fp(&self, s: &US) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&s.c.to_string());
        h.done()
    }
    fn check(&self, s: &US, _: &mut Cov) -> Result<(), Viol> {
        let c = q(&s.w, &self.addr, "config");
        vensure!(c == s.c, "reported", "{} reports {c} instead of {}", self.name, s.c);
        for (g, e) in (self.extra)(&s.w, &s.c) {
            vensure!(g == e, "reported", "{} with {} gives {g} instead of {e}", self.name, s.c);
        }
        Ok(())
    }
}
fn updates(t: bool) -> Vec<Box<dyn Runner>> {
    let mut out: Vec<Box<dyn Runner>> = vec![];
    let e = eco();
    let inc = e.at["incentives"].clone();
    let act: Vec<String> = e.w.q(&inc, json!({"active_pools": {}})).unwrap().as_array().unwrap().iter().map(|p| p[0].as_str().unwrap().to_string()).collect();
    let i2 = inc.clone();
    out.push(bounded(
        UM {
            name: "incentives-update",
            w0: e.w.clone(),
            addr: inc,
            fields: vec![
                ("astro_token", vec![(native("uusd").info(), true), (native(ASTRO).info(), true), (native("u").info(), false), (json!({"token": {"contract_addr": "wasm1newastro"}}), true)]),
                ("vesting_contract", one("wasm1vesting2")),
                ("generator_controller", one(ALICE)),
                ("guardian", one(BOB)),
                (
                    "incentivization_fee_info",
                    vec![
                        (json!({"fee_receiver": FEE, "fee": {"denom": "uaaa", "amount": "5"}}), true),
                        (json!({"fee_receiver": BOB, "fee": {"denom": "ubbb", "amount": "0"}}), true),
                        (json!({"fee_receiver": "fee", "fee": {"denom": "uaaa", "amount": "5"}}), false),
                        (json!({"fee_receiver": FEE, "fee": {"denom": "u", "amount": "5"}}), false),
                    ],
                ),
                ("token_transfer_gas_limit", vec![(json!(400_000), true), (json!(1_500_000), true), (json!(399_999), false), (json!(1_500_001), false), (json!(0), false)]),
            ],
            pairs: vec![("vesting_contract", "guardian"), ("astro_token", "token_transfer_gas_limit")],
            apply: Arc::new(|_, c, m| {
                let mut n = c.clone();
                for (k, x) in m.as_object().unwrap() {
                    n[k] = x.clone();
                }
                Some(n)
            }),
            // the pools that earn the protocol reward earn the token in force
            extra: Arc::new(move |w, c| {
                let mut out = vec![];
                for lp in &act {
                    let r = w.q(&i2, json!({"reward_info": {"lp_token": lp}})).unwrap_or(Value::Null);
                    let int: Vec<Value> = r.as_array().unwrap_or(&vec![]).iter().filter_map(|r| r["reward"].get("int").cloned()).collect();
                    out.push((json!(int), json!([c["astro_token"]])));
                }
                out
            }),
        },
        if t { 5 } else { 3 },
    ));
    // the fee collector, with and without the staking contract
    for (name, staking) in [("maker-update", true), ("maker-update-without-staking", false)] {
        let mut w = e.w.clone();
        let f = e.at["factory"].clone();
        let m = if staking {
            e.at["maker"].clone()
        } else {
            new_maker(&mut w, &f, &native(ASTRO), json!({"governance_contract": "wasm1gov", "governance_percent": "100"})).unwrap()
        };
        let reg = e.at["registry"].clone();
        let dev = |a: &str, s: &str, d: &str| json!({"set": {"address": a, "share": s, "asset_info": native(d).info()}});
        out.push(bounded(
            UM {
                name,
                w0: w,
                addr: m,
                fields: vec![
                    ("factory_contract", vec![(json!(reg), true), (json!(f), true), (json!("factory"), false)]),
                    ("staking_contract", one("wasm1staking2")),
                    ("governance_contract", vec![(json!({"set": "wasm1gov2"}), true), (json!({"remove": {}}), true), (json!({"set": "gov"}), false)]),
                    ("governance_percent", vec![(json!("0"), true), (json!("37"), true), (json!("100"), true), (json!("101"), false)]),
                    ("basic_asset", vec![(native("uusd").info(), true), (native("u").info(), false)]),
                    ("max_spread", vec![(json!("0"), false), (json!("0.000000000000000001"), true), (json!("0.5"), true), (json!("0.500000000000000001"), false)]),
                    (
                        "second_receiver_params",
                        [("0", false), ("1", true), ("50", true), ("51", false)]
                            .iter()
                            .map(|(c, ok)| (json!({"second_fee_receiver": FEE, "second_receiver_cut": c}), *ok))
                            .chain([(json!({"second_fee_receiver": "second", "second_receiver_cut": "7"}), false)])
                            .collect(),
                    ),
                    ("collect_cooldown", vec![(json!(29), false), (json!(30), true), (json!(600), true), (json!(601), false)]),
                    ("astro_token", vec![(native("uusd").info(), true), (native("u").info(), false)]),
                    (
                        "dev_fund_config",
                        vec![
                            (dev(BOB, "0.25", "uaaa"), true),
                            (dev(BOB, "1", "uccc"), true),
                            (dev(BOB, "0", "uaaa"), false),
                            (dev(BOB, "1.000000000000000001", "uaaa"), false),
                            (dev("bob", "0.25", "uaaa"), false),
                            (dev(BOB, "0.25", "unowhere"), false),
                            (json!({"set": null}), true),
                        ],
                    ),
                ],
                pairs: vec![("staking_contract", "governance_percent"), ("staking_contract", "governance_contract"), ("astro_token", "dev_fund_config")],
                apply: Arc::new(move |w, c, m| {
                    let mut n = c.clone();
                    for k in ["factory_contract", "staking_contract", "max_spread", "astro_token"] {
                        if let Some(x) = m.get(k) {
                            n[k] = x.clone();
                        }
                    }
                    if let Some(g) = m.get("governance_contract") {
                        if g.get("remove").is_some() && n["staking_contract"].is_null() {
                            return None;
                        }
                        n["governance_contract"] = g.get("set").cloned().unwrap_or(Value::Null);
                    }
                    if let Some(p) = m.get("governance_percent") {
                        if n["staking_contract"].is_null() && *p != json!("100") {
                            return None;
                        }
                        n["governance_percent"] = p.clone();
                    }
                    if let Some(b) = m.get("basic_asset") {
                        n["default_bridge"] = b.clone();
                    }
                    if let Some(s) = m.get("second_receiver_params") {
                        n["second_receiver_cfg"] = s.clone();
                    }
                    if let Some(d) = m.get("dev_fund_config") {
                        n["dev_fund_conf"] = d["set"].clone();
                        if !d["set"].is_null() {
                            // the share can only be paid out in a token ASTRO is traded for
                            let p = w.q(n["factory_contract"].as_str().unwrap(), json!({"pair": {"asset_infos": [n["astro_token"], d["set"]["asset_info"]]}}));
                            if p.is_err() {
                                return None;
                            }
                        }
                    }
                    Some(n)
                }),
                extra: Arc::new(|_, _| vec![]),
            },
            if t { 5 } else { 3 },
        ));
    }
    out
}

// ---------------------------------------------------------------- marketing record and logo of the former xASTRO token
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MkOp {
    Update { by: String, project: Option<String>, description: Option<String>, marketing: Option<String> },
    Logo { by: String, logo: Value, ok: bool },
}
struct Mk {
    w0: World,
    addr: String,
    start: Value,
}
#[derive(Clone)]
struct MkS {
    w: World,
    info: Value,
    logo: Value,
}
impl Model for Mk {
    type S = MkS;
    type Op = MkOp;
    fn name(&self) -> String {
        format!("N01:xastro-marketing-{}", if self.start.is_null() { "none" } else if self.start["project"].is_null() { "bare" } else { "full" })
    }
    fn init(&self) -> MkS {
        let (info, logo) = marketing_of(&self.start);
        MkS { w: self.w0.clone(), info, logo }
    }
    fn ops(&self, _: &MkS, _: usize) -> Vec<MkOp> {
        let o = |x: &str| if x == "-" { None } else { Some(x.to_string()) };
        let mut v = vec![];
        for by in [ALICE, BOB] {
            for p in ["-", "p2", " "] {
                for d in ["-", "d2", ""] {
                    for m in ["-", BOB, "", "bob"] {
                        v.push(MkOp::Update { by: by.into(), project: o(p), description: o(d), marketing: o(m) });
                    }
                }
            }
            for (l, ok) in logos() {
                v.push(MkOp::Logo { by: by.into(), logo: l, ok });
            }
        }
        v
    }
    fn step(&self, s: &MkS, op: &MkOp, cov: &mut Cov) -> Result<Option<MkS>, Viol> {
        let mut n = s.clone();
        let (by, msg, ok) = match op {
            MkOp::Update { by, project, description, marketing } => {
                for (k, x) in [("project", project), ("description", description), ("marketing", marketing)] {
                    if let Some(x) = x {
                        n.info[k] = if x.trim().is_empty() { Value::Null } else { json!(x) };
                    }
                }
                (by, json!({"update_marketing": {"project": project, "description": description, "marketing": marketing}}), marketing.as_deref() != Some("bob"))
            }
            MkOp::Logo { by, logo, ok } => {
                let (i, l) = marketing_of(&json!({"logo": logo}));
                n.info["logo"] = i["logo"].clone();
                n.logo = l;
                (by, json!({"upload_logo": logo}), *ok)
            }
        };
        // only the account named in the record changes it
        let ok = ok && s.info["marketing"] == json!(by);
        let r = n.w.exec_json(by, &self.addr, msg, &[]);
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        vensure!(r.is_ok() == ok, "marketing", "{op:?} with {}: {:?}", s.info, r.err());
        Ok(ok.then_some(n))
    }
    fn fp(&self, s: &MkS) -> u128 {
        let mut h = H::new();
        s.w.fp(&mut h, true);
        h.str(&format!("{}{}", s.info, s.logo));
        h.done()
    }
    fn check(&self, s: &MkS, _: &mut Cov) -> Result<(), Viol> {
        let i = q(&s.w, &self.addr, "marketing_info");
        vensure!(i == s.info, "marketing", "reports {i} instead of {}", s.info);
        let l = s.w.q(&self.addr, json!({"download_logo": {}})).unwrap_or(Value::Null);
        vensure!(l == s.logo, "logo", "logo {l} instead of {}", s.logo);
        Ok(())
    }
}
fn marketing(t: bool) -> Vec<Box<dyn Runner>> {
    let mut out: Vec<Box<dyn Runner>> = vec![];
    for start in [Value::Null, json!({"project": "p", "description": "d", "marketing": ALICE, "logo": {"url": "u"}}), json!({"project": null, "description": null, "marketing": ALICE, "logo": null})] {
        let (mut w, _, _) = base();
        let mut m = json!({"name": "xAstro", "symbol": "xASTRO", "decimals": 6, "initial_balances": [], "mint": null});
        if !start.is_null() {
            m["marketing"] = start.clone();
        }
        let addr = w.init(OWNER, XASTRO_TOKEN, &m, &[]).unwrap();
        out.push(bounded(Mk { w0: w, addr, start }, if t { 4 } else { 3 }));
    }
    out
}

// ---------------------------------------------------------------- settings given while upgrading
/// the pool of old and new ASTRO is only turned into a converter of exactly these two tokens
fn converter_pairs() -> Box<dyn Runner> {
    let (mut w, _, f) = base();
    w.fund(SEED, OLDASTRO, 1 << 60);
    let toks = ["uaaa", ASTRO, OLDASTRO, "ibc/OTHER"];
    let burn = json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"});
    let convs: Vec<(String, &str, &str)> = [(OLDASTRO, ASTRO), (OLDASTRO, "uaaa"), ("ibc/OTHER", ASTRO)]
        .iter()
        .map(|(o, n)| (w.init(OWNER, CONVERTER, &json!({"old_astro_asset_info": native(o).info(), "new_astro_denom": n, "outpost_burn_params": burn}), &[]).unwrap(), *o, *n))
        .collect();
    let mut cases = vec![];
    for a in 0..toks.len() {
        for b in 0..toks.len() {
            for c in 0..convs.len() + 2 {
                for v in ["1.0.1", "1.1.0", "1.3.0", "1.3.3", "1.2.0", "2.0.1"] {
                    for n in ["astroport-pair", "astroport-pair-stable"] {
                        if a != b {
                            cases.push((a, b, c, v.to_string(), n.to_string()));
                        }
                    }
                }
            }
        }
    }
    grid("N01:pair_converter", cases, move |(a, b, c, v, n): &(usize, usize, usize, String, String), cov: &mut Cov| {
        let mut w = w.clone();
        let (ta, tb) = (toks[*a], toks[*b]);
        let infos = json!([native(ta).info(), native(tb).info()]);
        let p = w.init(OWNER, PAIR, &json!({"pair_type": {"xyk": {}}, "asset_infos": infos, "token_code_id": CW20, "factory_addr": f, "init_params": null}), &[])?;
        let lp = q(&w, &p, "pair")["liquidity_token"].clone();
        w.poke(&p, b"contract_info", format!(r#"{{"contract":"{n}","version":"{v}"}}"#).as_bytes());
        let conv = convs.get(*c).map(|x| x.0.as_str()).unwrap_or(if *c == convs.len() { f.as_str() } else { "converter" });
        let ok = n == "astroport-pair"
            && ["1.0.1", "1.1.0", "1.3.0", "1.3.3"].contains(&v.as_str())
            && convs.get(*c).is_some_and(|(_, o, n)| (ta == *o && tb == *n) || (tb == *o && ta == *n));
        let r = w.migrate(&p, PAIR_CONVERTER, json!({"converter_contract": conv}));
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        vensure!(r.is_ok() == ok, "accepted", "pool of {ta} and {tb}, {n} {v}, to {conv}: {:?}", r.err());
        if ok {
            let (_, o, nw) = &convs[*c];
            let i = q(&w, &p, "pair");
            vensure!(i == json!({"asset_infos": infos, "contract_addr": p, "liquidity_token": lp, "pair_type": {"xyk": {}}}), "reported", "pool {i}");
            // it quotes the old token one to one, and not the other way
            for (d, side) in [(*o, true), (*nw, false)] {
                let s = w.q(&p, json!({"simulation": {"offer_asset": native(d).asset(777)}}));
                vensure!(s.as_ref().is_ok_and(|s| s["return_amount"] == json!("777")) == side, "quote", "{d}: {s:?}");
                let s = w.q(&p, json!({"reverse_simulation": {"ask_asset": native(d).asset(777)}}));
                vensure!(s.as_ref().is_ok_and(|s| s["offer_amount"] == json!("777")) == !side, "quote", "{d}: {s:?}");
            }
        }
        Ok(())
    })
}
/// a tracker of version 1.0.0 keeps its token and takes the unit of time it is told
fn tracker_upgrade() -> Box<dyn Runner> {
    let (mut w, _, _) = base();
    let d = w.tf_new(ALICE, "hist", None);
    let a = w.init(OWNER, TRACKER_V1, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": d}), &[]).unwrap();
    let mut cases = vec![];
    for n in ["astroport-tokenfactory-tracker", "astroport-tracker"] {
        for v in ["1.0.0", "1.0.1", "2.0.0"] {
            for t in [false, true] {
                cases.push((n.to_string(), v.to_string(), t));
            }
        }
    }
    grid("N01:tracker-upgrade", cases, move |(n, v, t): &(String, String, bool), cov: &mut Cov| {
        let mut w = w.clone();
        w.poke(&a, b"contract_info", format!(r#"{{"contract":"{n}","version":"{v}"}}"#).as_bytes());
        let r = w.migrate(&a, TRACKER, json!({"track_over_seconds": t}));
        cov.hit(if r.is_ok() { "accepted" } else { "refused" });
        let ok = n == "astroport-tokenfactory-tracker" && v == "1.0.0";
        vensure!(r.is_ok() == ok, "accepted", "{n} {v}: {:?}", r.err());
        if ok {
            let c = q(&w, &a, "config");
            vensure!(c == json!({"tracked_denom": d, "token_factory_module": TF_MODULE, "track_over_seconds": t}), "reported", "{c} after the upgrade");
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "N01",
        scenarios: |t| {
            let mut v: Vec<Box<dyn Runner>> = vec![];
            v.extend(tokenomics(t).into_iter().map(run));
            v.extend(periphery().into_iter().map(run));
            v.extend(pools(t).into_iter().map(run));
            v.extend(updates(t));
            v.extend(marketing(t));
            v.push(converter_pairs());
            v.push(tracker_upgrade());
            v
        },
        assumptions: &["addresses are valid when they are lower-case letters and digits after wasm1; the chain's own address rules are not part of the repository"],
    }]
}
