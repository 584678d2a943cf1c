//! Engine C: one binary per property in src/bin.
