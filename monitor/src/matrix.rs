//! Every privileged method and every kind of caller.

use crate::real::code_hash;
use crate::model::{ATTO, D};
use crate::real::args;
use crate::small::*;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use world::*;

/// What somebody can show.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Badge {
    Owner,
    Authority,
    BaseAuthority,
    FaucetOwner,
    Junk,
}
const BADGES: [Badge; 5] = [Badge::Owner, Badge::Authority, Badge::BaseAuthority, Badge::FaucetOwner, Badge::Junk];

/// Who a role is given to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Given {
    Anyone,
    Nobody,
    To(Badge),
}

impl Given {
    fn allows(self, shown: &Set<Badge>) -> bool {
        match self {
            Given::Anyone => true,
            Given::Nobody => false,
            Given::To(b) => shown.contains(&b),
        }
    }
}

type Build = Box<dyn Fn(&World, ManifestBuilder) -> ManifestBuilder>;

struct Method {
    name: String,
    at: ComponentAddress,
    /// Any of these roles opens it.
    roles: Vec<&'static str>,
    /// Whether it succeeds with the right badge, rather than fails for another reason.
    sound: bool,
    build: Build,
}

pub fn matrix(cx: &mut Cx) {
    let a = cx.w.a.clone();
    let e = a.exchange;
    let bank = cx.w.bank.clone();
    let alice = Actor::new(120);
    let pair = "BTC/USD".to_string();

    // Something of everything.
    cx.w.set_pair_configs(&[pair_config(&pair)]).expect("pair");
    let signed = {
        let now = cx.w.sim.now();
        sign_prices(ORACLE_KEY, 0, &[(pair.clone(), dec!(50000), now)])
    };
    cx.w.push_prices(&signed).expect("prices");
    let collateral = ::config::CollateralConfig {
        pair_id: pair.clone(),
        price_age_max: 100,
        discount: dec!("0.9"),
        margin: dec!("0.01"),
    };
    cx.w.set_collateral_configs(&[(a.tokens[0], collateral.clone())]).expect("collateral");
    cx.w.add_liquidity(a.base, dec!(10000)).expect("liquidity");
    let n = NewAccount { tokens: vec![(a.base, dec!(1000))], ..Default::default() };
    let acc = cx.w.create_account(alice.rule(), &n).1.expect("account");
    let o = Order::market(&pair, dec!("0.001"));
    cx.w.order(acc, &o, None, &[alice.badge.clone()]).expect("order");
    cx.w.owner_call(a.token_wrapper, "add_input", args(&(a.tokens[2],))).expect("input");
    cx.w.paying(a.token_wrapper, "wrap", &[(a.tokens[2], dec!(50))], |b| args(&(b[0],)), &[]).expect("wrap");
    let url = || UncheckedUrl::of("https://x.org/k.png");
    {
        let b = cx.w.as_owner(cx.w.b());
        let (b, buckets) = cx.w.pay_all(b, &[(a.base, dec!(100))]);
        let b = b.call_method(
            e,
            "mint_referral_with_allocation",
            manifest_args!("n", "d", url(), dec!("0.05"), dec!("0.05"), 50u64, buckets, vec![(a.base, dec!(1))], 20u64),
        );
        cx.w.run(b, &[]).expect("referral");
    }
    let badge = {
        let v = cx.w.sim.vaults(bank.account, a.referral);
        cx.w.sim.non_fungible_ids(v[0])[0].clone()
    };
    {
        let b = cx.w.as_owner(cx.w.b());
        for _ in 0..2 {
            let f = cx.w.b().call_method(FAUCET, "free", manifest_args!());
            cx.w.run(f, &[]).expect("XRD");
        }
        let (b, x) = cx.w.pay(b, &bank, XRD, dec!(100));
        cx.w.run(b.call_method(a.fee_delegator, "deposit", manifest_args!(x)), &[]).expect("deposit");
    }
    cx.w.owner_call(a.oracle, "add_key", args(&(3u64, oracle_key(3)))).expect("key");

    let later = cx.w.sim.now() + 10;
    cx.w.sim.set_now(later);
    let signed = sign_prices(ORACLE_KEY, 0, &[(pair.clone(), dec!(50000), later)]);
    cx.w.push_prices(&signed).expect("prices");

    // Roles and who has them at first.
    let mut given: Map<(ComponentAddress, &'static str), Given> = Map::new();
    let owner = Given::To(Badge::Owner);
    let exchange_admins = ["fee_delegator_admin", "treasury_admin", "referral_admin", "user_admin"];
    let exchange_users = [
        "protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user", "account_management_user",
        "remove_collateral_request_user", "margin_order_request_user", "cancel_request_user",
    ];
    let exchange_keepers =
        ["keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs"];
    for r in exchange_admins {
        given.insert((e, r), owner);
    }
    for r in exchange_users.iter().chain(exchange_keepers.iter()) {
        given.insert((e, *r), Given::Anyone);
    }
    for (c, roles) in [
        (a.token_wrapper, vec![("admin", owner), ("wrap_user", Given::Anyone), ("unwrap_user", Given::Anyone), ("flash_user", Given::Anyone)]),
        (a.fee_delegator, vec![("admin", owner), ("depositor", owner), ("withdrawer", owner), ("user", Given::Anyone)]),
        (a.oracle, vec![("push_user", Given::Anyone), ("get_user", Given::Anyone)]),
        (a.faucet, vec![("user", Given::Anyone)]),
    ] {
        for (r, g) in roles {
            given.insert((c, r), g);
        }
    }
    for c in [acc, a.config, a.pool, a.referral_generator, a.fee_distributor, a.fee_delegator, a.permission_registry, a.oracle] {
        given.insert((c, "authority"), Given::To(Badge::Authority));
    }
    for c in [e, a.token_wrapper, a.fee_delegator, a.oracle, a.env_registry, a.config, a.pool, a.fee_distributor, a.referral_generator, a.permission_registry] {
        given.insert((c, "_owner_"), owner);
    }
    given.insert((a.faucet, "_owner_"), Given::To(Badge::FaucetOwner));

    // Methods.
    let mut all: Vec<Method> = vec![];
    macro_rules! m {
        ($at:expr, $name:expr, $roles:expr, $sound:expr, $build:expr) => {
            all.push(Method { name: $name.to_string(), at: $at, roles: $roles.to_vec(), sound: $sound, build: Box::new($build) })
        };
    }
    macro_rules! call {
        ($at:expr, $name:expr, $roles:expr, $args:expr) => {{
            let (at, name) = ($at, $name);
            let v: ManifestValue = args(&$args);
            m!(at, name, $roles, true, move |_: &World, b: ManifestBuilder| b.call_method(at, name, Raw(v.clone())))
        }};
        ($at:expr, $name:expr, $roles:expr, $args:expr, unsound) => {{
            let (at, name) = ($at, $name);
            let v: ManifestValue = args(&$args);
            m!(at, name, $roles, false, move |_: &World, b: ManifestBuilder| b.call_method(at, name, Raw(v.clone())))
        }};
    }
    macro_rules! pays {
        ($at:expr, $name:expr, $roles:expr, $pay:expr, $sound:expr, $args:expr) => {{
            let (at, name, pay) = ($at, $name, $pay);
            let f = $args;
            m!(at, name, $roles, $sound, move |w: &World, b: ManifestBuilder| {
                let (b, x) = w.pay(b, &w.bank, pay.0, pay.1);
                b.call_method(at, name, Raw(f(x)))
            })
        }};
    }
    let owner_only = ["_owner_"];
    let auth = ["authority"];
    let no = None::<ManifestBucket>;
    let prices = None::<Signed>;
    let exchange_config = {
        let r = cx.w.query(vec![(e, "get_exchange_config", args(&()))]);
        r.output::<::config::ExchangeConfig>(0)
    };
    // The owner's.
    m!(e, "deposit_authority", owner_only, true, move |w: &World, b: ManifestBuilder| {
        let (b, x) = w.pay(b, &w.owner, w.a.authority, ATTO);
        b.call_method(w.a.exchange, "deposit_authority", manifest_args!(x))
    });
    m!(a.token_wrapper, "deposit_authority", owner_only, true, move |w: &World, b: ManifestBuilder| {
        let (b, x) = w.pay(b, &w.owner, w.a.base_authority, ATTO);
        b.call_method(w.a.token_wrapper, "deposit_authority", manifest_args!(x))
    });
    for c in [e, a.token_wrapper] {
        m!(c, "withdraw_authority", owner_only, true, move |w: &World, b: ManifestBuilder| {
            // Taken by the only account that could hold the badge anyway.
            b.call_method(c, "withdraw_authority", manifest_args!())
                .try_deposit_entire_worktop_or_abort(w.owner.account, None)
        });
    }
    call!(e, "signal_upgrade", owner_only, (acc,));
    call!(e, "update_exchange_config", owner_only, (exchange_config.clone(),));
    call!(e, "update_pair_configs", owner_only, (vec![pair_config("ETH/USD")],));
    call!(e, "update_collateral_configs", owner_only, (vec![(a.tokens[1], collateral.clone())],));
    call!(e, "remove_collateral_config", owner_only, (a.tokens[0],));
    call!(e, "collect_treasury", ["treasury_admin"], ());
    call!(e, "collect_fee_delegator", ["fee_delegator_admin"], ());
    let (five, badge_id) = (dec!("0.05"), badge.clone());
    call!(e, "mint_referral", ["referral_admin"], ("n".to_string(), "d".to_string(), url(), five, five, 9u64));
    m!(e, "mint_referral_with_allocation", ["referral_admin"], true, move |w: &World, b: ManifestBuilder| {
        let (b, x) = w.pay(b, &w.bank, w.a.base, dec!(5));
        b.call_method(
            w.a.exchange,
            "mint_referral_with_allocation",
            manifest_args!("n", "d", UncheckedUrl::of("https://x.org/k.png"), five, five, 50u64, vec![x], vec![(w.a.base, dec!(1))], 5u64),
        )
    });
    call!(e, "update_referral", ["referral_admin"], (badge_id.clone(), Some(five), Some(five), Some(60u64)));
    let id = badge.clone();
    m!(e, "add_referral_allocation", ["referral_admin"], true, move |w: &World, b: ManifestBuilder| {
        let (b, x) = w.pay(b, &w.bank, w.a.base, dec!(5));
        b.call_method(w.a.exchange, "add_referral_allocation", manifest_args!(id.clone(), vec![x], vec![(w.a.base, dec!(1))], 5u64))
    });
    // The users'.
    pays!(e, "swap_protocol_fee", ["protocol_swap_user"], (a.protocol, dec!(100)), false, |x: ManifestBucket| args(&(x,)));
    pays!(e, "add_liquidity", ["liquidity_user"], (a.base, dec!(3)), true, |x: ManifestBucket| args(&(x,)));
    pays!(e, "remove_liquidity", ["liquidity_user"], (a.lp, dec!(3)), true, |x: ManifestBucket| args(&(x,)));
    for real in [true, false] {
        // With the badge, or with something else in its place.
        let tag = if real { "" } else { " without the badge" };
        let id = badge.clone();
        let proof = move |w: &World, b: ManifestBuilder| -> (ManifestBuilder, ManifestProof) {
            let name = b.generate_proof_name("shown");
            let ids: IndexSet<NonFungibleLocalId> = [id.clone()].into_iter().collect();
            let b = if real {
                b.create_proof_from_account_of_non_fungibles(w.bank.account, w.a.referral, ids)
                    .pop_from_auth_zone(name.clone())
            } else {
                let b = b.withdraw_from_account(w.bank.account, w.a.junk, dec!(1)).take_from_worktop(w.a.junk, dec!(1), "held");
                b.create_proof_from_bucket_of_all("held", name.clone())
            };
            let p = b.name_lookup().proof(name);
            (b, p)
        };
        let back = move |w: &World, b: ManifestBuilder| -> ManifestBuilder {
            if real {
                b
            } else {
                let k = b.name_lookup().bucket("held");
                b.drop_all_proofs().call_method(w.bank.account, "try_deposit_or_abort", manifest_args!(k, None::<ResourceOrNonFungible>))
            }
        };
        let roles: &[&'static str] = if real { &["referral_user"] } else { &[] };
        let p = proof.clone();
        m!(e, format!("create_referral_codes{tag}"), roles, true, move |w: &World, b: ManifestBuilder| {
            let (b, x) = w.pay(b, &w.bank, w.a.base, dec!(5));
            let (b, p) = p(w, b);
            let hashes: Map<Hash, (Vec<(ResourceAddress, D)>, u64)> =
                [(code_hash("fresh"), (vec![(w.a.base, dec!(1))], 1u64))].into_iter().collect();
            back(w, b.call_method(w.a.exchange, "create_referral_codes", manifest_args!(p, vec![x], hashes)))
        });
        let p = proof.clone();
        m!(e, format!("create_referral_codes_from_allocation{tag}"), roles, true, move |w: &World, b: ManifestBuilder| {
            let (b, p) = p(w, b);
            let hashes: Set<Hash> = [code_hash("another")].into_iter().collect();
            back(w, b.call_method(w.a.exchange, "create_referral_codes_from_allocation", manifest_args!(p, 0u64, hashes)))
        });
        let p = proof.clone();
        m!(e, format!("collect_referral_rewards{tag}"), roles, true, move |w: &World, b: ManifestBuilder| {
            let (b, p) = p(w, b);
            back(w, b.call_method(w.a.exchange, "collect_referral_rewards", manifest_args!(p)))
        });
    }
    let rule = alice.rule();
    m!(e, "create_account", ["account_creation_user"], true, move |w: &World, b: ManifestBuilder| {
        let tokens: Vec<ManifestBucket> = vec![];
        b.call_method(w.a.exchange, "create_account", manifest_args!(None::<ManifestBucket>, AccessRule::AllowAll, tokens, None::<String>, None::<ManifestAddressReservation>))
    });
    let manage = ["account_management_user"];
    call!(e, "create_recovery_key", manage, (no, acc));
    let node = match &rule {
        AccessRule::Protected(n) => n.clone(),
        _ => unreachable!(),
    };
    call!(e, "add_auth_rule", manage, (no, acc, 2u8, node));
    call!(e, "set_level_1_auth", manage, (no, acc, rule.clone()));
    call!(e, "set_level_2_auth", manage, (no, acc, rule.clone()));
    call!(e, "set_level_3_auth", manage, (no, acc, rule.clone()));
    pays!(e, "add_collateral", manage, (a.base, dec!(3)), true, move |x: ManifestBucket| args(&(None::<ManifestBucket>, acc, vec![x])));
    let claims: Vec<(ResourceAddress, D)> = vec![(a.base, dec!(1))];
    call!(e, "remove_collateral_request", ["remove_collateral_request_user"], (no, 1000u64, acc, bank.account, claims.clone()));
    let ord = ["margin_order_request_user"];
    let none_refs: Vec<::exchange::RequestIndexRef> = vec![];
    {
        let (o, refs) = (o.clone(), none_refs.clone());
        m!(e, "margin_order_request", ord, true, move |w: &World, b: ManifestBuilder| {
            b.call_method(
                w.a.exchange,
                "margin_order_request",
                manifest_args!(
                    None::<ManifestBucket>, o.delay, o.expiry, acc, o.pair.clone(), o.amount, o.reduce_only, o.price_limit,
                    o.slippage_limit, refs.clone(), refs.clone(), o.status
                ),
            )
        });
    }
    {
        let o = o.clone();
        m!(e, "margin_order_tp_sl_request", ord, true, move |w: &World, b: ManifestBuilder| {
            b.call_method(
                w.a.exchange,
                "margin_order_tp_sl_request",
                manifest_args!(
                    None::<ManifestBucket>, o.delay, o.expiry, acc, o.pair.clone(), o.amount, o.reduce_only, o.price_limit,
                    o.slippage_limit, Some(dec!(2)), Some(dec!(1))
                ),
            )
        });
    }
    call!(e, "cancel_requests", ["cancel_request_user"], (no, acc, vec![0u64]));
    // The keepers'.
    call!(e, "process_request", ["keeper_process"], (acc, 0u64, prices.clone()));
    let p = prices.clone();
    pays!(e, "swap_debt", ["keeper_swap_debt"], (a.base, dec!(3)), false, move |x: ManifestBucket| {
        let p: Option<Signed> = p.clone();
        args(&(acc, XRD, x, p))
    });
    let p = prices.clone();
    pays!(e, "liquidate", ["keeper_liquidate"], (a.base, dec!(3)), false, move |x: ManifestBucket| {
        let p: Option<Signed> = p.clone();
        args(&(acc, x, p))
    });
    call!(e, "auto_deleverage", ["keeper_auto_deleverage"], (acc, pair.clone(), prices.clone()), unsound);
    call!(e, "update_pairs", ["keeper_update_pairs"], (vec![pair.clone()], prices.clone()));
    // The exchange's.
    type Few = (u8,);
    let empty_strings: HashMap<String, Few> = HashMap::new();
    let empty_numbers: HashMap<u64, Few> = HashMap::new();
    let few: Vec<Few> = vec![];
    let numbers: Vec<u64> = vec![];
    call!(acc, "update", auth, ((empty_strings.clone(), dec!(5), 0u64, few, empty_numbers, numbers.clone(), numbers.clone()),));
    call!(acc, "update_referral_id", auth, (Some(badge_id.clone()),));
    pays!(acc, "deposit_collateral_batch", auth, (a.tokens[0], dec!(3)), true, |x: ManifestBucket| args(&(vec![x],)));
    let nothing: Vec<(ResourceAddress, D)> = vec![];
    call!(acc, "withdraw_collateral_batch", auth, (nothing, WithdrawStrategy::Exact));
    call!(a.config, "update_exchange_config", auth, (exchange_config.clone(),));
    call!(a.config, "update_pair_configs", auth, (vec![pair_config("ETH/USD")],));
    call!(a.config, "update_collateral_configs", auth, (vec![(a.tokens[1], collateral.clone())],));
    call!(a.config, "remove_collateral_config", auth, (a.tokens[0],));
    call!(a.pool, "update", auth, ((empty_strings, dec!(5), dec!(0), dec!(0), dec!(0)),));
    pays!(a.pool, "deposit", auth, (a.base, dec!(3)), true, |x: ManifestBucket| args(&(x,)));
    call!(a.pool, "withdraw", auth, (dec!(2), WithdrawStrategy::Exact));
    let id = badge.clone();
    pays!(a.referral_generator, "add_allocation", auth, (a.base, dec!(3)), true, move |x: ManifestBucket| {
        args(&(vec![x], id.clone(), vec![(_BASE, dec!(1))], 2u64))
    });
    let id = badge.clone();
    pays!(a.referral_generator, "create_referral_codes", auth, (a.base, dec!(3)), true, move |x: ManifestBucket| {
        let hashes: Map<Hash, (Vec<(ResourceAddress, D)>, u64)> =
            [(code_hash("fresh"), (vec![(_BASE, dec!(1))], 1u64))].into_iter().collect();
        args(&(vec![x], id.clone(), hashes))
    });
    {
        let hashes: Set<Hash> = [code_hash("another")].into_iter().collect();
        call!(a.referral_generator, "create_referral_codes_from_allocation", auth, (badge_id.clone(), 0u64, hashes));
    }
    call!(a.referral_generator, "claim_referral_code", auth, (code_hash("unknown"),), unsound);
    call!(a.fee_distributor, "update_protocol_virtual_balance", auth, (dec!(1),));
    call!(a.fee_distributor, "update_treasury_virtual_balance", auth, (dec!(1),));
    call!(a.fee_distributor, "distribute", auth, (dec!(1), dec!(1)));
    call!(a.fee_delegator, "update_virtual_balance", auth, (dec!(1),));
    {
        let set: IndexSet<ComponentAddress> = [acc].into_iter().collect();
        call!(a.permission_registry, "set_permissions", auth, (rule.clone(), (set.clone(), set.clone(), set)));
    }
    let pairs: Set<String> = [pair.clone()].into_iter().collect();
    call!(a.oracle, "push_and_get_prices_with_auth", auth, (pairs.clone(), signed.0.clone(), signed.1, signed.2));
    call!(a.oracle, "get_prices_with_auth", auth, (pairs.clone(),));
    call!(a.oracle, "push_and_get_prices", ["push_user"], (pairs.clone(), signed.0.clone(), signed.1, signed.2));
    call!(a.oracle, "get_prices", ["get_user"], (pairs.clone(),));
    // The other owners'.
    call!(a.oracle, "add_key", owner_only, (7u64, oracle_key(7)));
    call!(a.oracle, "remove_key", owner_only, (3u64,));
    call!(a.oracle, "remove_price", owner_only, (pair.clone(),));
    call!(a.token_wrapper, "add_input", owner_only, (a.tokens[1],));
    call!(a.token_wrapper, "update_wrappable", ["_owner_", "admin"], (a.tokens[2], false));
    pays!(a.token_wrapper, "wrap", ["wrap_user"], (a.tokens[2], dec!(3)), true, |x: ManifestBucket| args(&(x,)));
    let t2 = a.tokens[2];
    pays!(a.token_wrapper, "unwrap", ["unwrap_user"], (a.base, dec!(3)), true, move |x: ManifestBucket| args(&(x, t2)));
    m!(a.token_wrapper, "flash_loan", ["flash_user"], true, move |w: &World, b: ManifestBuilder| {
        let t = w.a.token_wrapper;
        let b = b
            .call_method(t, "flash_loan", manifest_args!(dec!(9)))
            .take_all_from_worktop(w.a.flash_oath, "oath")
            .take_all_from_worktop(w.a.base, "loan");
        let (x, y) = (b.name_lookup().bucket("oath"), b.name_lookup().bucket("loan"));
        b.call_method(t, "repay_flash_loan", manifest_args!(x, y))
    });
    let admin = ["_owner_", "admin"];
    call!(a.fee_delegator, "update_max_lock", admin, (dec!(7),));
    call!(a.fee_delegator, "update_price_multiplier", admin, (dec!(1),));
    call!(a.fee_delegator, "update_is_contingent", admin, (true,));
    pays!(a.fee_delegator, "deposit", ["depositor"], (XRD, dec!(3)), true, |x: ManifestBucket| args(&(x,)));
    call!(a.fee_delegator, "withdraw", ["withdrawer"], (dec!(2),));
    let acc_alice = acc;
    m!(a.fee_delegator, "lock_fee", ["user"], true, move |w: &World, b: ManifestBuilder| {
        let b = b.call_method(w.a.fee_delegator, "lock_fee", manifest_args!(dec!("0.001"))).take_all_from_worktop(w.a.fee_oath, "oath");
        let x = b.name_lookup().bucket("oath");
        let tokens: Vec<ManifestBucket> = vec![];
        b.call_method(w.a.exchange, "add_collateral", manifest_args!(Some(x), acc_alice, tokens))
    });
    call!(a.env_registry, "set_variables", owner_only, (vec![("a".to_string(), "b".to_string())],));
    call!(a.env_registry, "remove_variables", owner_only, (vec!["a".to_string()],));
    call!(a.faucet, "update_mint_amount", owner_only, (a.faucet_tokens[0], dec!(3)));
    call!(a.faucet, "admin_mint_token", owner_only, (a.faucet_tokens[0], dec!(3)));
    call!(a.faucet, "free_tokens", ["user"], ());
    m!(a.oracle, "set_component_royalty", owner_only, true, move |w: &World, b: ManifestBuilder| {
        b.set_component_royalty(w.a.oracle, "push_and_get_prices", RoyaltyAmount::Xrd(dec!(1)))
    });
    m!(a.oracle, "claim_component_royalties", owner_only, true, move |w: &World, b: ManifestBuilder| b
        .claim_component_royalties(w.a.oracle));
    for c in [e, a.token_wrapper, a.fee_delegator, a.oracle, a.config, a.pool, a.fee_distributor, a.referral_generator, a.permission_registry, a.env_registry] {
        m!(c, "set_metadata", owner_only, true, move |_: &World, b: ManifestBuilder| {
            b.set_metadata(c, "name", MetadataValue::String("x".into()))
        });
    }
    // Money out of nothing. `authority` stands for the exchange's.
    let nobody: [&'static str; 0] = [];
    for (token, who) in [(a.lp, true), (a.keeper_reward, true), (a.fee_oath, false), (a.flash_oath, false), (a.protocol, false), (a.faucet_tokens[0], false), (a.faucet_tokens[2], false)] {
        let roles: &[&'static str] = if who { &["authority"] } else { &nobody };
        m!(a.pool, format!("mint {token:?}"), roles, true, move |_: &World, b: ManifestBuilder| b.mint_fungible(token, dec!(3)));
    }
    m!(a.pool, "burn LP", ["authority"], true, move |w: &World, b: ManifestBuilder| {
        let (b, x) = w.pay(b, &w.bank, w.a.lp, dec!(3));
        b.burn_resource(x)
    });
    for token in [a.referral, a.recovery_key] {
        let referral = token == a.referral;
        m!(a.pool, format!("mint {token:?}"), ["authority"], true, move |_: &World, b: ManifestBuilder| {
            let url = UncheckedUrl::of("https://x.org/k.png");
            if referral {
                b.mint_ruid_non_fungible(token, vec![("n".to_string(), "d".to_string(), url, dec!(1), dec!(1), 0u64, 5u64, dec!(0), dec!(0))])
            } else {
                b.mint_ruid_non_fungible(token, vec![("n".to_string(), "d".to_string(), url)])
            }
        });
    }

    // Calls and changes of roles, mixed.
    let names: Vec<(String, String)> = vec![
        (format!("{e:?}"), "exchange".into()),
        (format!("{acc:?}"), "account".into()),
        (format!("{:?}", a.pool), "pool".into()),
        (format!("{:?}", a.config), "config".into()),
        (format!("{:?}", a.oracle), "oracle".into()),
        (format!("{:?}", a.token_wrapper), "wrapper".into()),
        (format!("{:?}", a.fee_delegator), "delegator".into()),
        (format!("{:?}", a.fee_distributor), "distributor".into()),
        (format!("{:?}", a.referral_generator), "referrals".into()),
        (format!("{:?}", a.permission_registry), "registry".into()),
        (format!("{:?}", a.env_registry), "env".into()),
        (format!("{:?}", a.faucet), "faucet".into()),
    ];
    cx.names = names;
    let mut changed: Vec<(ComponentAddress, &'static str)> = vec![];
    // Who else may appoint somebody: the account's and the resources' roles, and the owners' own.
    let main = ModuleId::Main;
    let mut posts: Vec<(GlobalAddress, ModuleId, &'static str, Option<Badge>)> = vec![];
    for l in ["level_1", "level_2", "level_3"] {
        posts.push((acc.into(), main, l, Some(Badge::Authority)));
    }
    for t in [a.fee_oath, a.flash_oath] {
        for r in ["minter", "burner", "depositor", "withdrawer", "recaller", "freezer"] {
            posts.push((t.into(), main, r, None));
        }
        for r in ["minter_updater", "burner_updater", "depositor_updater", "withdrawer_updater", "recaller_updater", "freezer_updater"] {
            posts.push((t.into(), main, r, None));
        }
    }
    for t in &a.faucet_tokens {
        for r in ["minter", "minter_updater"] {
            posts.push(((*t).into(), main, r, Some(Badge::FaucetOwner)));
        }
    }
    let royalty = ModuleId::Royalty;
    for r in ["royalty_setter", "royalty_setter_updater", "royalty_claimer", "royalty_claimer_updater"] {
        posts.push((a.oracle.into(), royalty, r, Some(Badge::Owner)));
    }
    for r in ["royalty_locker", "royalty_locker_updater"] {
        posts.push((a.oracle.into(), royalty, r, None));
    }
    for c in [e, acc, a.pool, a.config, a.oracle, a.token_wrapper, a.fee_delegator, a.fee_distributor, a.referral_generator, a.permission_registry, a.env_registry] {
        posts.push((c.into(), main, "_owner_", None));
    }
    posts.push((a.faucet.into(), main, "_owner_", Some(Badge::FaucetOwner)));
    for _ in 0..120 {
        if cx.rng.percent(9) {
            let (at, module, role, by) = cx.rng.pick(&posts);
            let mut shown = some_badges(cx);
            match cx.rng.below(3) {
                0 => shown = BADGES.iter().copied().filter(|b| Some(*b) != by).collect(),
                1 => shown = by.into_iter().collect(),
                _ => {}
            }
            let may = by.map_or(false, |b| shown.contains(&b));
            let b = show(&cx.w, cx.w.b(), &shown);
            let to = rule!(allow_all);
            let b = if role == "_owner_" { b.set_owner_role(at, to) } else { b.set_role(at, module, RoleKey::new(role), to) };
            let signers = [cx.w.owner.badge.clone(), bank.badge.clone(), alice.badge.clone()];
            let r = cx.w.sim.preview(b.build(), signers);
            cx.outcome(&format!("appointing for {role} of {at:?} by {shown:?}"), &(role, hash_of(&at), shown.clone()), may, &r);
            continue;
        }
        if cx.rng.percent(22) {
            let keys: Vec<_> = given.keys().copied().collect();
            let (mut c, mut role) = cx.rng.pick(&keys);
            let climbs = cx.rng.percent(45);
            if climbs {
                // One rung of the ladder as a foothold for another.
                let home = cx.rng.pick(&[e, e, e, a.token_wrapper, a.fee_delegator]);
                let of: Vec<_> = keys.iter().copied().filter(|k| k.0 == home).collect();
                (c, role) = cx.rng.pick(&of);
            }
            if role == "_owner_" {
                continue;
            }
            if climbs && cx.rng.percent(25) {
                let of: Vec<_> = keys.iter().copied().filter(|k| k.0 == c && k.1 != "_owner_" && k.1 != "authority").collect();
                let admins: Vec<_> = of.iter().copied().filter(|k| k.1.contains("admin")).collect();
                let l = if cx.rng.percent(70) { &admins } else { &of };
                let (_, foothold) = cx.rng.pick(l);
                let t = token(&cx.w, Badge::Junk);
                let b = show(&cx.w, cx.w.b(), &[Badge::Owner].into());
                let r = cx.w.run(b.set_role(c, ModuleId::Main, RoleKey::new(foothold), rule!(require(t))), &[]);
                cx.outcome(&format!("set_role of {c:?} {foothold} by the owner"), &("foothold", foothold), true, &r);
                given.insert((c, foothold), Given::To(Badge::Junk));
                changed.push((c, foothold));
                // Every other rung, with nothing else in hand.
                let shown: Set<Badge> = [Badge::Junk].into();
                for (_, role) in of {
                    let may = exchange_users.contains(&role) && c == e && given[&(e, "user_admin")].allows(&shown);
                    let b = show(&cx.w, cx.w.b(), &shown).set_role(c, main, RoleKey::new(role), rule!(allow_all));
                    let r = cx.w.sim.preview(b.build(), [bank.badge.clone(), alice.badge.clone()]);
                    cx.outcome(&format!("climbing from {foothold} to {role} of {c:?}"), &("climb", foothold, role), may, &r);
                }
                continue;
            }
            let mut shown = if cx.rng.percent(50) { [Badge::Owner].into() } else { some_badges(cx) };
            if climbs {
                shown = [Badge::Junk].into();
                if cx.rng.percent(30) {
                    shown = BADGES.iter().copied().filter(|b| *b != Badge::Owner).collect();
                }
            }
            let to = match cx.rng.below(4) {
                0 => Given::Nobody,
                1 => Given::Anyone,
                _ => Given::To(cx.rng.pick(&[Badge::Owner, Badge::Junk, Badge::Junk])),
            };
            let r_owner = given.get(&(c, "_owner_")).map_or(false, |g| g.allows(&shown));
            let may = if role == "authority" || c == a.oracle {
                false
            } else if exchange_users.contains(&role) && c == e {
                r_owner || given[&(e, "user_admin")].allows(&shown)
            } else {
                r_owner
            };
            let rule = match to {
                Given::Anyone => AccessRule::AllowAll,
                Given::Nobody => AccessRule::DenyAll,
                Given::To(b) => {
                    let t = token(&cx.w, b);
                    rule!(require(t))
                }
            };
            let b = show(&cx.w, cx.w.b(), &shown);
            let r = cx.w.run(b.set_role(c, ModuleId::Main, RoleKey::new(role), rule), &[]);
            cx.outcome(&format!("set_role of {c:?} {role} to {to:?} by {shown:?}"), &(role, shown.clone()), may, &r);
            if may {
                given.insert((c, role), to);
                changed.push((c, role));
            }
            continue;
        }
        let mut m = &all[cx.rng.below(all.len())];
        if !changed.is_empty() && cx.rng.percent(45) {
            let (c, role) = cx.rng.pick(&changed);
            let opened: Vec<&Method> = all.iter().filter(|m| m.at == c && m.roles.contains(&role)).collect();
            if !opened.is_empty() {
                m = opened[cx.rng.below(opened.len())];
            }
        }
        if m.name == "lock_fee" && given[&(e, "account_management_user")] != Given::Anyone {
            // What it hands out is used up there.
            continue;
        }
        let opens = |shown: &Set<Badge>| m.roles.iter().any(|r| given.get(&(m.at, *r)).map_or(false, |g| g.allows(shown)));
        let mut shown = some_badges(cx);
        match cx.rng.below(6) {
            // Everything but what opens it.
            0..=2 => {
                shown = BADGES.iter().copied().collect();
                for b in BADGES {
                    if opens(&[b].into()) {
                        shown.remove(&b);
                    }
                }
            }
            // Just what opens it.
            3 => {
                shown = BADGES.iter().copied().filter(|b| opens(&[*b].into())).collect();
            }
            _ => {}
        }
        // The accounts in the way are not what this is about.
        let ok = opens(&shown);
        let b = show(&cx.w, cx.w.b(), &shown);
        let b = (m.build)(&cx.w, b);
        let manifest = b.try_deposit_entire_worktop_or_abort(bank.account, None).build();
        let signers = [cx.w.owner.badge.clone(), bank.badge.clone(), alice.badge.clone()];
        let r = cx.w.sim.preview(manifest, signers);
        let what = format!("{} of {:?} by {shown:?}", m.name, m.at);
        let situation = (m.name.clone(), hash_of(&m.at), shown.clone(), ok);
        // Where the call is expected to fail for a reason of its own, only the refusal counts.
        if ok && !m.sound {
            let stopped = r.is_auth_error();
            cx.judge(&situation, !stopped, || format!("{what} was refused: {}", r.error()));
            *cx.mon.stats.ops.entry(format!("{} not refused", m.name)).or_default() += 1;
        } else if !ok && !m.sound {
            let stopped = r.is_auth_error();
            cx.judge(&situation, stopped, || format!("{what} got past the badges: {}", r.error()));
            *cx.mon.stats.ops.entry(format!("{} refused", m.name)).or_default() += 1;
        } else {
            cx.outcome(&what, &situation, ok, &r);
        }
    }
}

const _BASE: ResourceAddress = common::_BASE_RESOURCE;

fn hash_of<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}")
}

fn token(w: &World, b: Badge) -> ResourceAddress {
    match b {
        Badge::Owner => w.a.owner_badge,
        Badge::Authority => w.a.authority,
        Badge::BaseAuthority => w.a.base_authority,
        Badge::FaucetOwner => w.a.faucet_owner_badge,
        Badge::Junk => w.a.junk,
    }
}

fn some_badges(cx: &mut Cx) -> Set<Badge> {
    let n = cx.rng.below(4);
    (0..n).map(|_| cx.rng.pick(&BADGES)).collect()
}

fn show(w: &World, b: ManifestBuilder, shown: &Set<Badge>) -> ManifestBuilder {
    shown.iter().fold(b, |b, s| {
        let at = if *s == Badge::Junk { w.bank.account } else { w.owner.account };
        let amount = if *s == Badge::Owner || *s == Badge::FaucetOwner { dec!(1) } else { ATTO };
        b.create_proof_from_account_of_amount(at, token(w, *s), amount)
    })
}
