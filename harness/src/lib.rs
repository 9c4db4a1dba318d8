pub mod rt;

macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident = $path:path;)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() { $path() } )*
        pub fn lookup(n: &str) -> Option<extern "C-unwind" fn()> {
            $( $(#[$m])* if n == stringify!($name) { return Some($name); } )*
            let _ = n;
            None
        }
    };
}

#[cfg(any(feature = "g_pub", feature = "g_chk"))]
mod alloc;
#[cfg(any(feature = "g_pub", feature = "g_chk"))]
mod oracle;
#[cfg(any(feature = "g_pub", feature = "g_chk", feature = "g_ser"))]
mod tf;

#[cfg(feature = "g_moves")]
mod i_moves;
#[cfg(feature = "g_red")]
mod i_red;
#[cfg(feature = "g_graph")]
mod i_graph;
#[cfg(feature = "g_enc")]
mod i_enc;
#[cfg(feature = "g_ix")]
mod i_ix;
#[cfg(feature = "g_ion")]
mod i_ion;
#[cfg(feature = "g_fast")]
mod i_fast;
#[cfg(feature = "g_cfg")]
mod i_cfg;
#[cfg(feature = "g_chk")]
mod i_chk;
#[cfg(feature = "g_ser")]
mod i_ser;

harnesses! {
    #[cfg(feature = "g_pub")] h_alloc = alloc::alloc;
    #[cfg(feature = "g_pub")] h_alloc_reuse = alloc::reuse;
    #[cfg(feature = "g_pub")] h_alloc_undefined = alloc::undefined;
    #[cfg(feature = "g_moves")] h_moves_resolve = i_moves::resolve;
    #[cfg(feature = "g_moves")] h_moves_scratch = i_moves::scratch;
    #[cfg(feature = "g_red")] h_red_elide = i_red::elide;
    #[cfg(feature = "g_graph")] h_graph_post = i_graph::post;
    #[cfg(feature = "g_graph")] h_graph_dom = i_graph::dom;
    #[cfg(feature = "g_enc")] h_enc_regs = i_enc::regs;
    #[cfg(feature = "g_enc")] h_enc_operand = i_enc::operand;
    #[cfg(feature = "g_enc")] h_enc_points = i_enc::points;
    #[cfg(feature = "g_enc")] h_enc_set = i_enc::set;
    #[cfg(feature = "g_enc")] h_enc_set_iter = i_enc::set_iter;
    #[cfg(feature = "g_ix")] h_ix_ops = i_ix::ops;
    #[cfg(feature = "g_ix")] h_ix_union = i_ix::union;
    #[cfg(feature = "g_ion")] h_ion_traverse = i_ion::traverse;
    #[cfg(feature = "g_ion")] h_ion_merge = i_ion::merge;
    #[cfg(feature = "g_fast")] h_fast_lru = i_fast::lru;
    #[cfg(feature = "g_fast")] h_fast_vset = i_fast::vset;
    #[cfg(feature = "g_cfg")] h_cfg_edges = i_cfg::edges;
    #[cfg(feature = "g_cfg")] h_cfg_ssa = i_cfg::ssa;
    #[cfg(feature = "g_ser")] h_ser_function = i_ser::function;
    #[cfg(feature = "g_ser")] h_ser_output = i_ser::output;
    #[cfg(feature = "g_ser")] h_ser_walk = i_ser::walk;
    #[cfg(feature = "g_chk")] h_chk_accept = i_chk::accept;
    #[cfg(feature = "g_chk")] h_chk_judge = i_chk::judge;
    #[cfg(feature = "g_chk")] h_chk_mutant = i_chk::mutant;
}
