//! The schema types; see build.rs.
#![allow(non_snake_case, clippy::all)]
use crate::dynty::*;
use crate::layout::{Node, Res, View, ensure};
use crate::model::*;
use crate::tape::Gen;
use crate::val::*;
use parcode::{ParcodeCollectionPromise, ParcodeMapPromise};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

include!(concat!(env!("OUT_DIR"), "/schemas.rs"));
