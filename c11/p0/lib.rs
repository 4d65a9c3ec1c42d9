use base::*;

include!(env!("C11_GEN_0"));
