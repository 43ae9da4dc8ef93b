//! Helpers for demonstrations and scenarios that need several accounts or steps.
use crate::world::*;
