//! Executable contracts over the real kompact code.
#![allow(clippy::all, semicolon_in_expressions_from_macros)]
pub mod nondet;
use nondet::TapeSrc;

/// A Kani harness discharging the contract of the same name for all inputs.
#[macro_export]
macro_rules! harness {
    ($module:ident :: $name:ident, $unwind:literal $(, $attr:meta)*) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(kompact::prelude::SerError::invalid_data, $crate::errors::message)]
        #[kani::stub(kompact::prelude::SerError::invalid_type, $crate::errors::message)]
        #[kani::stub(kompact::prelude::SerError::unknown, $crate::errors::message)]
        #[kani::stub(<kompact::prelude::SerError as core::convert::From<bytes::TryGetError>>::from, $crate::errors::short)]
        $(#[$attr])*
        fn $name() {
            $crate::$module::$name(&mut $crate::nondet::KaniSrc);
            kani::cover!(true, "contract end reachable");
        }
    };
}

/// Stands in for the constructors of error values: an error without message and backtrace.
#[cfg(kani)]
pub mod errors {
    use kompact::prelude::SerError;
    pub fn message(_m: impl Into<String>) -> SerError {
        SerError::verif_opaque()
    }
    pub fn short(_e: bytes::TryGetError) -> SerError {
        SerError::verif_opaque()
    }
}

/// `(property, contract, body)` of every contract the replay driver can run.
pub type Entry = (&'static str, &'static str, fn(&mut TapeSrc));

macro_rules! registry {
    ($( $(#[$m:meta])* $prop:literal => $module:ident :: { $($f:ident),* $(,)? } )*) => {
        pub fn registry() -> Vec<Entry> {
            let mut v: Vec<Entry> = Vec::new();
            $( $(#[$m])* { $( v.push(($prop, stringify!($f), $module::$f::<TapeSrc>)); )* } )*
            v
        }
    };
}

pub mod encode;
pub mod frames;
pub mod paths;
pub mod pool;
pub mod stream;
pub mod wire;
pub mod word;
pub mod sys;
pub mod comp;
pub mod ports;
pub mod timers;
pub mod dedicated;
pub mod config;
pub mod local;
pub mod lookup;
#[cfg(feature = "net")]
pub mod netq;
#[cfg(feature = "net")]
pub mod netsys;
#[cfg(kompact_verif_net)]
pub mod chunks;

registry! {
    "C01" => frames::{hello_round_trip, start_round_trip, empty_frames_round_trip,
        frame_type_bytes, data_frame_round_trip}
    #[cfg(kompact_verif_net)]
    "C01" => frames::{head_round_trip, head_decode_total, hello_v4, hello_v6, start_v4, start_v6}
    #[cfg(kompact_verif_net)]
    "C11" => chunks::{lease_view, lease_split, lease_into_ref, ref_chain, ref_nested}
    "C03" => paths::{system_v4, system_v6, unique_v4, unique_v6, named_wire, named_limit,
        header_total, bitfields}
    "C04" => wire::{values_total, messages_total, frames_total}
    "C07" => wire::{builtin_values, serde_values, serde_enums, serialised_helpers}
    "C08" => wire::{unpack_by_id, match_default, builtin_ids}
    "C09" => wire::{framing, clones}
    "C05" => paths::{text_round_trip, transport_text, text_total}
    "C06" => paths::{validity_exact, path_building, wire_validity, short_segments}
    "C02" => stream::{reassembly, prefix_is_no_frame}
    "C10" => encode::{leases_exact, enough_memory_never_fails}
    #[cfg(kompact_verif_pool)]
    "C10" => encode::{reserve_and_pad}
    "C13" => lookup::{table_is_a_map}
    "C14" => lookup::{groups_reach_exactly_their_members}
    "C15" => lookup::{only_dead_references_are_collected}
    "C16" => lookup::{round_robin, round_robin_index, bucket_in_range, hash_buckets, broadcast}
    "C17" => word::{interval_step, interval_walk}
    #[cfg(kompact_verif_lifecycle)]
    "C18" => word::{states_keep_counts, work_is_scheduled_once, finished_work_is_subtracted, initial}
    "C18" => word::{decisions_combine}
    #[cfg(all(feature = "net", kompact_verif_netqueue))]
    "C23" => netq::{queues_are_fifo}
    #[cfg(all(feature = "net", kompact_verif_netqueue))]
    "C24" => netq::{last_rule_wins}
    "C19" => timers::{timers_fire_when_due}
    "C20" => config::{documents_are_found, later_sources_win, conversions_round_trip, entries_read_what_is_there}
    "C21" => ports::{events_follow_connections, ports_take_turns}
    "C22" => ports::{asks_are_answered}
    "C25" => comp::{mailbox}
    "C26" => comp::{outcomes, shutdown_ends_everything}
    "C27" => dedicated::{runs_on_its_own_thread}
    #[cfg(feature = "net")]
    "C28" => netsys::{messages_arrive, closing_damages_nothing}
    "C29" => local::{registered_is_reached}
    #[cfg(feature = "net")]
    "C29" => local::{registered_is_reached_networked}
    "C12" => pool::{never_hands_out_leased_memory, config_validation}
}
