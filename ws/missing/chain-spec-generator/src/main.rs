compile_error!("the generator of chain descriptions is not where it was");
