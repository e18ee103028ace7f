//! Networking; nothing of it is used.
