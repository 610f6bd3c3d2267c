//! Reference models, written from the RFCs without reference to the library's
//! code, and kept boring.
pub mod body;
pub mod crypto;
pub mod der;
pub mod domain;
pub mod header;
pub mod mail;
pub mod own;
pub mod qp;
pub mod record;
pub mod sign;
pub mod sigparse;
pub mod tags;
pub mod verify;
