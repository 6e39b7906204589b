pub mod engine;
pub mod unitab;
pub mod tok;
pub mod reflex;
pub mod lexgen;
pub mod lexdrv;
pub mod lexprops;
pub mod ast;
pub mod astgen;
pub mod print;
pub mod scope;
pub mod parsedrv;
pub mod parseprops;
pub mod errprops;
pub mod astprops;
pub mod estree_enc;
pub mod estreeprops;
pub mod unjsonprops;
pub mod acorn;
pub mod acornprops;
pub mod streamprops;
pub mod metaprops;
pub mod cli;

use engine::Check;

pub fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(lexprops::checks());
    v.extend(streamprops::checks());
    v.extend(parseprops::checks());
    v.extend(errprops::checks());
    v.extend(acornprops::checks());
    v.extend(metaprops::checks());
    v.extend(astprops::checks());
    v.extend(estreeprops::checks());
    v.extend(unjsonprops::checks());
    v
}
