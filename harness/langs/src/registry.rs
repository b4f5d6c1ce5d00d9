// Generated once from the language crates: one entry per language.

macro_rules! for_each_lang { ($m:ident) => {
    $m!("oak-actionscript", oak_actionscript::ActionScriptLanguage, oak_actionscript::ActionScriptLexer, oak_actionscript::ActionScriptParser);
    $m!("oak-ada", oak_ada::AdaLanguage, oak_ada::AdaLexer, oak_ada::AdaParser);
    $m!("oak-apl", oak_apl::AplLanguage, oak_apl::AplLexer, oak_apl::AplParser);
    $m!("oak-ascii-doc", oak_ascii_doc::AsciiDocLanguage, oak_ascii_doc::AsciiDocLexer, oak_ascii_doc::AsciiDocParser);
    $m!("oak-bash", oak_bash::BashLanguage, oak_bash::lexer::BashLexer, oak_bash::BashParser);
    $m!("oak-bat", oak_bat::language::BatLanguage, oak_bat::lexer::BatLexer, oak_bat::parser::BatParser);
    $m!("oak-c", oak_c::language::CLanguage, oak_c::lexer::CLexer, oak_c::CParser);
    $m!("oak-clojure", oak_clojure::ClojureLanguage, oak_clojure::ClojureLexer, oak_clojure::ClojureParser);
    $m!("oak-cmd", oak_cmd::language::CmdLanguage, oak_cmd::lexer::CmdLexer, oak_cmd::parser::CmdParser);
    $m!("oak-cobol", oak_cobol::CobolLanguage, oak_cobol::lexer::CobolLexer, oak_cobol::CobolParser);
    $m!("oak-coq", oak_coq::CoqLanguage, oak_coq::CoqLexer, oak_coq::CoqParser);
    $m!("oak-cpp", oak_cpp::CppLanguage, oak_cpp::CppLexer, oak_cpp::CppParser);
    $m!("oak-crystal", oak_crystal::CrystalLanguage, oak_crystal::CrystalLexer, oak_crystal::CrystalParser);
    $m!("oak-csharp", oak_csharp::CSharpLanguage, oak_csharp::CSharpLexer, oak_csharp::CSharpParser);
    $m!("oak-css", oak_css::CssLanguage, oak_css::CssLexer, oak_css::CssParser);
    $m!("oak-csv", oak_csv::language::CsvLanguage, oak_csv::lexer::CsvLexer, oak_csv::CsvParser);
    $m!("oak-d", oak_d::DLanguage, oak_d::DLexer, oak_d::DParser);
    $m!("oak-dart", oak_dart::DartLanguage, oak_dart::DartLexer, oak_dart::DartParser);
    $m!("oak-dejavu", oak_dejavu::DejavuLanguage, oak_dejavu::DejavuLexer, oak_dejavu::DejavuParser);
    $m!("oak-delphi", oak_delphi::DelphiLanguage, oak_delphi::DelphiLexer, oak_delphi::parser::DelphiParser);
    $m!("oak-dhall", oak_dhall::DHallLanguage, oak_dhall::DHallLexer, oak_dhall::DHallParser);
    $m!("oak-django", oak_django::DjangoLanguage, oak_django::DjangoLexer, oak_django::DjangoParser);
    $m!("oak-dockerfile", oak_dockerfile::DockerfileLanguage, oak_dockerfile::DockerfileLexer, oak_dockerfile::DockerfileParser);
    $m!("oak-dot", oak_dot::DotLanguage, oak_dot::DotLexer, oak_dot::DotParser);
    $m!("oak-elixir", oak_elixir::ElixirLanguage, oak_elixir::ElixirLexer, oak_elixir::parser::ElixirParser);
    $m!("oak-elm", oak_elm::ElmLanguage, oak_elm::ElmLexer, oak_elm::parser::ElmParser);
    $m!("oak-erlang", oak_erlang::ErlangLanguage, oak_erlang::ErlangLexer, oak_erlang::parser::ErlangParser);
    $m!("oak-fortran", oak_fortran::FortranLanguage, oak_fortran::FortranLexer, oak_fortran::parser::FortranParser);
    $m!("oak-fsharp", oak_fsharp::FSharpLanguage, oak_fsharp::FSharpLexer, oak_fsharp::parser::FSharpParser);
    $m!("oak-go", oak_go::GoLanguage, oak_go::GoLexer, oak_go::GoParser);
    $m!("oak-graphql", oak_graphql::GraphQLLanguage, oak_graphql::lexer::GraphQLLexer, oak_graphql::parser::GraphQLParser, { oak_graphql::GraphQLLanguage {} }, |c| <oak_graphql::lexer::GraphQLLexer>::new(c), |c| <oak_graphql::parser::GraphQLParser>::new(c));
    $m!("oak-groovy", oak_groovy::language::GroovyLanguage, oak_groovy::lexer::GroovyLexer, oak_groovy::parser::GroovyParser);
    $m!("oak-gsgl", oak_gsgl::GsglLanguage, oak_gsgl::GsglLexer, oak_gsgl::GsglParser, { Default::default() }, |c| <oak_gsgl::GsglLexer>::new(c), |c| <oak_gsgl::GsglParser>::new(c.clone()));
    $m!("oak-handlebars", oak_handlebars::HandlebarsLanguage, oak_handlebars::HandlebarsLexer, oak_handlebars::HandlebarsParser);
    $m!("oak-haskell", oak_haskell::HaskellLanguage, oak_haskell::HaskellLexer, oak_haskell::HaskellParser);
    $m!("oak-hlsl", oak_hlsl::HlslLanguage, oak_hlsl::HlslLexer, oak_hlsl::HlslParser);
    $m!("oak-html", oak_html::HtmlLanguage, oak_html::HtmlLexer, oak_html::HtmlParser, { Default::default() }, |c| <oak_html::HtmlLexer>::new(c), |c| <oak_html::HtmlParser>::new(c.clone()));
    $m!("oak-idl", oak_idl::IdlLanguage, oak_idl::IdlLexer, oak_idl::IdlParser);
    $m!("oak-ini", oak_ini::IniLanguage, oak_ini::IniLexer, oak_ini::IniParser);
    $m!("oak-j", oak_j::JLanguage, oak_j::JLexer, oak_j::JParser);
    $m!("oak-jasm", oak_jasm::JasmLanguage, oak_jasm::JasmLexer, oak_jasm::JasmParser);
    $m!("oak-jasmin", oak_jasmin::JasminLanguage, oak_jasmin::JasminLexer, oak_jasmin::JasminParser);
    $m!("oak-java", oak_java::JavaLanguage, oak_java::JavaLexer, oak_java::JavaParser);
    $m!("oak-javadoc", oak_javadoc::JavadocLanguage, oak_javadoc::JavadocLexer, oak_javadoc::JavadocParser);
    $m!("oak-javascript", oak_javascript::language::JavaScriptLanguage, oak_javascript::lexer::JavaScriptLexer, oak_javascript::parser::JavaScriptParser);
    $m!("oak-json", oak_json::JsonLanguage, oak_json::JsonLexer, oak_json::JsonParser);
    $m!("oak-julia", oak_julia::JuliaLanguage, oak_julia::JuliaLexer, oak_julia::JuliaParser);
    $m!("oak-kotlin", oak_kotlin::KotlinLanguage, oak_kotlin::KotlinLexer, oak_kotlin::parser::KotlinParser);
    $m!("oak-lean", oak_lean::LeanLanguage, oak_lean::LeanLexer, oak_lean::LeanParser);
    $m!("oak-llvm-ir", oak_llvm_ir::LLvmLanguage, oak_llvm_ir::LLvmLexer, oak_llvm_ir::LLirParser);
    $m!("oak-lua", oak_lua::LuaLanguage, oak_lua::LuaLexer, oak_lua::LuaParser);
    $m!("oak-markdown", oak_markdown::MarkdownLanguage, oak_markdown::MarkdownLexer, oak_markdown::MarkdownParser);
    $m!("oak-matlab", oak_matlab::MatlabLanguage, oak_matlab::MatlabLexer, oak_matlab::MatlabParser);
    $m!("oak-mermaid", oak_mermaid::MermaidLanguage, oak_mermaid::MermaidLexer, oak_mermaid::MermaidParser);
    $m!("oak-mojo", oak_mojo::MojoLanguage, oak_mojo::lexer::MojoLexer, oak_mojo::parser::MojoParser, { Default::default() }, |c| <oak_mojo::lexer::MojoLexer>::new(), |c| <oak_mojo::parser::MojoParser>::new());
    $m!("oak-msil", oak_msil::MsilLanguage, oak_msil::MsilLexer, oak_msil::MsilParser);
    $m!("oak-nginx", oak_nginx::NginxLanguage, oak_nginx::NginxLexer, oak_nginx::NginxParser);
    $m!("oak-nim", oak_nim::NimLanguage, oak_nim::NimLexer, oak_nim::NimParser);
    $m!("oak-nix", oak_nix::NixLanguage, oak_nix::NixLexer, oak_nix::NixParser);
    $m!("oak-notedown", oak_notedown::language::NotedownLanguage, oak_notedown::lexer::NotedownLexer, oak_notedown::NoteParser);
    $m!("oak-objective-c", oak_objective_c::ObjectiveCLanguage, oak_objective_c::ObjectiveCLexer, oak_objective_c::ObjectiveCParser);
    $m!("oak-ocaml", oak_ocaml::OCamlLanguage, oak_ocaml::OCamlLexer, oak_ocaml::OCamlParser);
    $m!("oak-org-mode", oak_org_mode::OrgModeLanguage, oak_org_mode::OrgModeLexer, oak_org_mode::OrgModeParser);
    $m!("oak-pascal", oak_pascal::PascalLanguage, oak_pascal::PascalLexer, oak_pascal::PascalParser);
    $m!("oak-perl", oak_perl::PerlLanguage, oak_perl::PerlLexer, oak_perl::PerlParser);
    $m!("oak-php", oak_php::PhpLanguage, oak_php::PhpLexer, oak_php::PhpParser);
    $m!("oak-powershell", oak_powershell::PowerShellLanguage, oak_powershell::lexer::PowerShellLexer, oak_powershell::PowerShellParser);
    $m!("oak-prolog", oak_prolog::PrologLanguage, oak_prolog::lexer::PrologLexer, oak_prolog::PrologParser, { Default::default() }, |c| <oak_prolog::lexer::PrologLexer>::new(c), |c| <oak_prolog::PrologParser>::new(c.clone()));
    $m!("oak-protobuf", oak_protobuf::ProtobufLanguage, oak_protobuf::lexer::ProtobufLexer, oak_protobuf::ProtobufParser);
    $m!("oak-purescript", oak_purescript::PurescriptLanguage, oak_purescript::PurescriptLexer, oak_purescript::PurescriptParser);
    $m!("oak-python", oak_python::PythonLanguage, oak_python::PythonLexer, oak_python::PythonParser);
    $m!("oak-r", oak_r::RLanguage, oak_r::RLexer, oak_r::RParser);
    $m!("oak-raku", oak_raku::RakuLanguage, oak_raku::RakuLexer, oak_raku::RakuParser, { Default::default() }, |c| <oak_raku::RakuLexer>::new(), |c| <oak_raku::RakuParser>::new(c.clone()));
    $m!("oak-rbq", oak_rbq::RbqLanguage, oak_rbq::RbqLexer, oak_rbq::RbqParser);
    $m!("oak-regex", oak_regex::RegexLanguage, oak_regex::RegexLexer, oak_regex::RegexParser);
    $m!("oak-ruby", oak_ruby::RubyLanguage, oak_ruby::RubyLexer, oak_ruby::RubyParser);
    $m!("oak-rust", oak_rust::RustLanguage, oak_rust::RustLexer, oak_rust::RustParser);
    $m!("oak-sass", oak_sass::SassLanguage, oak_sass::SassLexer, oak_sass::SassParser);
    $m!("oak-scala", oak_scala::ScalaLanguage, oak_scala::ScalaLexer, oak_scala::ScalaParser);
    $m!("oak-scheme", oak_scheme::SchemeLanguage, oak_scheme::SchemeLexer, oak_scheme::SchemeParser);
    $m!("oak-scss", oak_scss::ScssLanguage, oak_scss::ScssLexer, oak_scss::ScssParser);
    $m!("oak-smalltalk", oak_smalltalk::SmalltalkLanguage, oak_smalltalk::SmalltalkLexer, oak_smalltalk::SmalltalkParser);
    $m!("oak-solidity", oak_solidity::SolidityLanguage, oak_solidity::SolidityLexer, oak_solidity::SolidityParser);
    $m!("oak-sql", oak_sql::SqlLanguage, oak_sql::SqlLexer, oak_sql::SqlParser);
    $m!("oak-stylus", oak_stylus::StylusLanguage, oak_stylus::StylusLexer, oak_stylus::StylusParser);
    $m!("oak-svelte", oak_svelte::SvelteLanguage, oak_svelte::SvelteLexer, oak_svelte::SvelteParser);
    $m!("oak-swift", oak_swift::SwiftLanguage, oak_swift::SwiftLexer, oak_swift::SwiftParser);
    $m!("oak-tailwind", oak_tailwind::TailwindLanguage, oak_tailwind::TailwindLexer, oak_tailwind::TailwindParser);
    $m!("oak-tcl", oak_tcl::TclLanguage, oak_tcl::TclLexer, oak_tcl::TclParser);
    $m!("oak-tex", oak_tex::TexLanguage, oak_tex::TexLexer, oak_tex::TexParser);
    $m!("oak-toml", oak_toml::TomlLanguage, oak_toml::TomlLexer, oak_toml::TomlParser);
    $m!("oak-twig", oak_twig::TwigLanguage, oak_twig::TwigLexer, oak_twig::TwigParser);
    $m!("oak-typescript", oak_typescript::TypeScriptLanguage, oak_typescript::TypeScriptLexer, oak_typescript::TypeScriptParser);
    $m!("oak-typst", oak_typst::TypstLanguage, oak_typst::TypstLexer, oak_typst::TypstParser);
    $m!("oak-vala", oak_vala::ValaLanguage, oak_vala::ValaLexer, oak_vala::ValaParser);
    $m!("oak-valkyrie", oak_valkyrie::ValkyrieLanguage, oak_valkyrie::ValkyrieLexer, oak_valkyrie::ValkyrieParser);
    $m!("oak-vampire", oak_vampire::VampireLanguage, oak_vampire::VampireLexer, oak_vampire::VampireParser);
    $m!("oak-verilog", oak_verilog::VerilogLanguage, oak_verilog::VerilogLexer, oak_verilog::VerilogParser);
    $m!("oak-vhdl", oak_vhdl::VhdlLanguage, oak_vhdl::VhdlLexer, oak_vhdl::VhdlParser);
    $m!("oak-vlang", oak_vlang::VLangLanguage, oak_vlang::VLangLexer, oak_vlang::VLangParser);
    $m!("oak-voc", oak_voc::VocLanguage, oak_voc::VocLexer, oak_voc::VocParser);
    $m!("oak-voml", oak_voml::VomlLanguage, oak_voml::VomlLexer, oak_voml::VomlParser);
    $m!("oak-von", oak_von::VonLanguage, oak_von::VonLexer, oak_von::VonParser);
    $m!("oak-wat", oak_wat::WatLanguage, oak_wat::WatLexer, oak_wat::WatParser);
    $m!("oak-wgsl", oak_wgsl::WgslLanguage, oak_wgsl::WgslLexer, oak_wgsl::WgslParser);
    $m!("oak-wit-component", oak_wit::WitLanguage, oak_wit::WitLexer, oak_wit::WitParser);
    $m!("oak-wolfram", oak_wolfram::WolframLanguage, oak_wolfram::WolframLexer, oak_wolfram::WolframParser);
    $m!("oak-xml", oak_xml::XmlLanguage, oak_xml::XmlLexer, oak_xml::XmlParser);
    $m!("oak-yaml", oak_yaml::YamlLanguage, oak_yaml::YamlLexer, oak_yaml::YamlParser);
    $m!("oak-zig", oak_zig::ZigLanguage, oak_zig::ZigLexer, oak_zig::ZigParser);
} }
pub(crate) use for_each_lang;
