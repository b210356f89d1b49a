#!/usr/bin/env python3
"""refacm.py [ID...]: behaviour-preserving edits of the macros on a copy of /repo; the expansion must stay provable."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = {}
def r(id, *edits): X[id] = edits
RUN = """                let msg = #job_struct_name::new(#(#input_names),*);
                let job_id = msg.job().run().await?;
                Ok(job_id)
"""
RUNC = """                let msg = #job_struct_name::new(#(#input_names),*);
                let job_id = msg.job().context(context).run().await?;
                Ok(job_id)
"""
JR = """                let msg = #job_struct_name::new(#(#input_names),*);
                msg.job().just_run();
"""
JRC = """                let msg = #job_struct_name::new(#(#input_names),*);
                msg.job().context(context).just_run();
"""
r("direct", (RUN, "                #job_struct_name::new(#(#input_names),*).job().run().await\n"), (RUNC, "                #job_struct_name::new(#(#input_names),*).job().context(context).run().await\n"))
r("rename", (RUN, RUN.replace("msg", "job")), (JR, JR.replace("msg", "value")))
r("literal", (JR, "                let msg = #job_struct_name { #(#input_names),* };\n                msg.job().just_run();\n"))
r("job-new", (JRC, "                let msg = #job_struct_name::new(#(#input_names),*);\n                let job = aj::Job::new(msg).set_context(context);\n                job.just_run();\n"))
r("local-job", (RUNC, "                let job = #job_struct_name::new(#(#input_names),*).job();\n                let job = job.context(context);\n                job.run().await\n"))
r("ctx-first", (JRC, "                let mut job = #job_struct_name::new(#(#input_names),*).job();\n                job.context = context;\n                job.just_run();\n"))
r("destructure", ("                    use super::#fn_name;\n\n                    #call_fn\n", "                    let Self { #(#input_names),* } = self.clone();\n                    #call_fn\n"),
  ("Some(quote! { self.#ident.clone() })", "Some(quote! { #ident })"))
r("clone-path", ("Some(quote! { self.#ident.clone() })", "Some(quote! { Clone::clone(&self.#ident) })"))
r("cloned-first", ("                    use super::#fn_name;\n\n                    #call_fn\n", "                    use super::#fn_name;\n\n                    let args = self.clone();\n                    #call_fn\n"),
  ("Some(quote! { self.#ident.clone() })", "Some(quote! { args.#ident })"))
r("super-path", ("                    use super::#fn_name;\n\n                    #call_fn\n", "                    let output = #call_fn;\n                    output\n"), ("            #fn_name(#(#struct_as_args),*).await", "            super::#fn_name(#(#struct_as_args),*).await"), ("            #fn_name(#(#struct_as_args),*)\n", "            super::#fn_name(#(#struct_as_args),*)\n"))
r("from-ctx", (RUN, "                run_with_context(#(#input_names,)* JobContext::new(String::new())).await\n".replace("run_with_context(#(#input_names,)* JobContext::new(String::new())).await", "#job_struct_name::new(#(#input_names),*).job().run().await")))
r("const-name", ("                stringify!(#name)\n", "                const NAME: &str = stringify!(#name);\n                NAME\n"))
r("lit-name", ("    let expanded = quote! {\n        impl BackgroundJob for #name {", "    let queue = name.to_string();\n\n    let expanded = quote! {\n        impl BackgroundJob for #name {"), ("stringify!(#name)", "#queue"))
r("wrap-helper", (RUN, "                wrap(#(#input_names),*).run().await\n"), ("            pub async fn run(#(#fn_args),*)", "            fn wrap(#(#fn_args),*) -> aj::Job<#job_struct_name> {\n                #job_struct_name::new(#(#input_names),*).job()\n            }\n\n            pub async fn run(#(#fn_args),*)"))
r("no-new", (RUN, RUN.replace("::new(#(#input_names),*)", " { #(#input_names),* }")), (RUNC, RUNC.replace("::new(#(#input_names),*)", " { #(#input_names),* }")), (JR, JR.replace("::new(#(#input_names),*)", " { #(#input_names),* }")), (JRC, JRC.replace("::new(#(#input_names),*)", " { #(#input_names),* }")),
  ("""            impl #job_struct_name {
                fn new(#(#fn_args),*) -> Self {
                    Self {
                        #(#input_names),*
                    }
                }
            }

""", ""))
r("map-err", (RUN, "                let msg = #job_struct_name::new(#(#input_names),*);\n                match msg.job().run().await {\n                    Ok(job_id) => Ok(job_id),\n                    Err(e) => Err(e),\n                }\n"))
r("add-job", (RUN, "                let msg = #job_struct_name::new(#(#input_names),*);\n                aj::AJ::add_job(msg.job(), #job_struct_name::queue_name()).await\n"))
r("pub-new", ("                fn new(#(#fn_args),*) -> Self {", "                pub fn new(#(#fn_args),*) -> Self {"))
r("async-ref", ("                async fn execute(&mut self, _context: &JobContext)", "                async fn execute(&mut self, _: &JobContext)"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
W = "/tmp/refacm"
def one(id):
    d = W + "/repo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W + "/g", exist_ok=True)
    shutil.rmtree(W + "/fx", ignore_errors=True); os.makedirs(W + "/fx")
    subprocess.run("git clone -q /repo " + d, shell=True, check=True)
    p = d + "/aj_macro/src/lib.rs"
    s = open(p).read()
    for a, b in X[id]:
        if s.count(a) != 1: return "BAD-EDIT %d %s" % (s.count(a), a[:60])
        s = s.replace(a, b)
    open(p, "w").write(s)
    for k in ("macros", "replay"):
        shutil.rmtree(W + "/" + k, ignore_errors=True)
        shutil.copytree(HERE + "/" + k, W + "/" + k, ignore=shutil.ignore_patterns("target"))
        t = open(W + "/" + k + "/Cargo.toml").read().replace("/repo/", d + "/")
        open(W + "/" + k + "/Cargo.toml", "w").write(t)
    e = subprocess.run(["cargo", "rustc", "-q", "--lib", "--offline", "--", "-Zunpretty=expanded"], cwd=W + "/macros", env=dict(ENV, CARGO_TARGET_DIR=W + "/target", RUSTC_WORKSPACE_WRAPPER=W + "/macros/wrap.sh"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if e.returncode: return "DOES-NOT-COMPILE " + e.stderr.decode()[-800:]
    open(W + "/e.rs", "wb").write(e.stdout)
    e = subprocess.run([HERE + "/vx/target/debug/vx", "expand", W + "/e.rs", W + "/fx"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if e.returncode: return "EXPAND " + e.stdout.decode()[-300:]
    e = subprocess.run(["bash", HERE + "/gen.sh", W + "/g"], env=dict(ENV, REPO=d, VX_EXTRA=W + "/fx"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if e.returncode: return "GEN " + e.stdout.decode()[-300:]
    m = json.load(open(W + "/g/map.json"))
    dem = [p["key"] + ": " + p["problem"] for p in m["problems"]]
    v = subprocess.run(["verus", "gen.rs", "--triggers-mode", "silent"], cwd=W + "/g", stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    errs = [l.strip() for l in v.splitlines() if l.startswith("error") or "//@c" in l]
    if "0 errors" in v: return "proved" if not dem else "demoted " + "; ".join(dem[:3])
    return ("ALARM " if "verification results" in v else "VERUS-REJECTS ") + "; ".join(dem[:2]) + "\n    " + "\n    ".join(x[:200] for x in errs[:6])
for i in [a for a in sys.argv[1:]] or list(X):
    print("%-14s %s" % (i, one(i)), flush=True)
