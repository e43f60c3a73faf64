//! Only here to have the two crates built: the declarations checked for C20 are compiled against them
//! by calling rustc directly (see vf/e_declare.py).
