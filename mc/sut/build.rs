use cfgrammar::yacc::YaccKind;
use lrlex::{CTLexerBuilder, DefaultLexerTypes};

fn main() -> Result<(), Box<dyn std::error::Error>> {
    println!("cargo:rerun-if-changed=src");
    println!("cargo:rerun-if-changed=build.rs");
    // The contents of /repo/src decide whether to rebuild, whatever the time stamps say.
    println!("cargo:rerun-if-env-changed=PIZAUTH_SRC_HASH");
    println!("cargo:rustc-env=PIZAUTH_SRC_HASH={}", std::env::var("PIZAUTH_SRC_HASH").unwrap_or_default());
    for f in std::fs::read_dir(std::env::var("OUT_DIR")?)? {
        let f = f?.path();
        if f.is_file() {
            std::fs::remove_file(f)?;
        }
    }
    println!("cargo:rustc-cfg=pizauth_verif");
    CTLexerBuilder::<DefaultLexerTypes<u8>>::new_with_lexemet()
        .lrpar_config(|ctp| {
            ctp.yacckind(YaccKind::Grmtools)
                .grammar_in_src_dir("config.y")
                .unwrap()
        })
        .lexer_in_src_dir("config.l")?
        .build()?;
    Ok(())
}
