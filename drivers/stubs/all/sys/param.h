/* nothing: only what the library defines is looked at */
