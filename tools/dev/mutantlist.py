# map.rs
mu("m-macro-allowed", (M, 1, "if let Type::Macro(..) = ty {", "if let (Type::Macro(..), false) = (ty, self.unique_predicates.has_maybe_bounds() || true) {"))
mu("m-sized-missing", (M, 1, "            self.unique_predicates.add(parse_quote! {\n                #ty: ::core::marker::Sized\n            })?;\n\n            return Ok(mappable);", "            if !matches!(ty, Type::Path(..)) {\n                self.unique_predicates.add(parse_quote! {\n                    #ty: ::core::marker::Sized\n                })?;\n            }\n\n            return Ok(mappable);"))
mu("m-array-len-dependent", (M, 1, "            Type::Array(TypeArray { elem: inner_ty, .. }) => {", "            Type::Array(TypeArray { elem: inner_ty, len: syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(lit), .. }), .. }) if lit.base10_digits() == \"1\" => {\n                let inner = self.map(quote!(__value), inner_ty)?;\n                Ok(quote!({ let [__value] = #mappable; [#inner] }))\n            }\n\n            Type::Array(TypeArray { elem: inner_ty, .. }) => {"))
mu("m-qself-ignored", (M, 1, "                    if inner_ty\n                        .dependency_on_type(&self.mapping.type_param.ident)\n                        .is_some()\n                    {", "                    if matches!(**inner_ty, Type::Path(..)) && inner_ty\n                        .dependency_on_type(&self.mapping.type_param.ident)\n                        .is_some()\n                    {"))
mu("m-prefix-first-only", (M, 1, "                if prefix_type\n                    .dependency_on_type(&self.mapping.type_param.ident)\n                    .is_some()", "                if prefix.len() == 1 && prefix_type\n                    .dependency_on_type(&self.mapping.type_param.ident)\n                    .is_some()"))
mu("m-marker-no-typish", (M, 1, "                    .filter(|arg| arg.is_typish())\n", ""))
mu("m-marker-types-only", (M, 1, "                    .filter(|arg| arg.is_typish())\n", "                    .filter(|arg| matches!(arg, GenericArgument::Type(..)))\n"))
mu("m-make-type-count", (M, 1, "                            if mapped.is_typish() {", "                            if matches!(mapped, GenericArgument::Type(..)) {"))
mu("m-make-type-le", (M, 1, "*marker_arg_idx >= mapped_until_idx", "*marker_arg_idx > mapped_until_idx"))
mu("m-dst-type-idx", (M, 1, "make_type(marker_idx + 1)", "make_type(args.len())"))
mu("m-src-type-zero", (M, 1, "make_type(marker_idx);", "make_type(0);"))
mu("m-second-arg-break", (M, 1, "                    let closure = self.map_closure(arg_type)?;\n\n                    mappable =", "                    let closure = self.map_closure(arg_type)?;\n                    if marker_idx > 2 { break; }\n\n                    mappable ="))
mu("m-leading-colon-lost", (M, 1, "                                leading_colon: *leading_colon,\n                                segments: prefix\n", "                                leading_colon: None,\n                                segments: prefix\n"))
mu("m-qself-lost", (M, 1, "                        Type::Path(TypePath {\n                            qself: qself.clone(),", "                        Type::Path(TypePath {\n                            qself: None,"))
mu("m-prefix-lost", (M, 1, "                                segments: prefix\n                                    .iter()\n                                    .cloned()\n", "                                segments: prefix\n                                    .iter()\n                                    .take(2)\n                                    .cloned()\n"))
mu("m-tuple-idx", (M, 1, "let idx = Index::from(i);", "let idx = Index::from(if i == 12 { 11 } else { i });"))
mu("m-tuple-rev", (M, 1, "                    .collect::<Result<Vec<_>, _>>()?;\n\n                Ok(quote!((#(#mapped,)*)))", "                    .collect::<Result<Vec<_>, _>>()?;\n                if mapped.len() > 4 {\n                    let last = &mapped[4];\n                    let others = mapped.iter().enumerate().map(|(i, m)| if i == 4 { quote!(__last) } else { quote!(#m) });\n                    return Ok(quote!({ let __last = #last; (#(#others,)*) }));\n                }\n\n                Ok(quote!((#(#mapped,)*)))"))
mu("m-ptr-err", (M, 1, "            Type::Ptr(..) => Err(", "            Type::Ptr(syn::TypePtr { mutability: None, .. }) => Ok(mappable),\n\n            Type::Ptr(..) => Err("))
mu("m-refs-ok", (M, 1, "            Type::Reference(..) => Err(", "            Type::Reference(syn::TypeReference { elem, .. }) if matches!(**elem, Type::Slice(..)) => Ok(mappable),\n\n            Type::Reference(..) => Err("))
mu("m-closure-name", (M, 1, "Ident::new(\"value\", Span::mixed_site())", "Ident::new(\"value\", Span::call_site())"))
mu("m-group-independent", (M, 1, "            Type::Group(TypeGroup { elem: inner_ty, .. }) => self.map(mappable, inner_ty),", "            Type::Group(TypeGroup { elem: inner_ty, .. }) => match &**inner_ty {\n                Type::Tuple(..) => Ok(mappable),\n                _ => self.map(mappable, inner_ty),\n            },"))
mu("m-paren-skip", (M, 1, "            Type::Paren(TypeParen { elem: inner_ty, .. }) => self.map(mappable, inner_ty),", "            Type::Paren(TypeParen { elem: inner_ty, .. }) => match &**inner_ty {\n                Type::Paren(..) => Ok(mappable),\n                _ => self.map(mappable, inner_ty),\n            },"))
mu("m-none-args-not-first", (M, 1, "                    PathArguments::None => {", "                    PathArguments::None if leading_colon.is_some() => return Ok(mappable),\n\n                    PathArguments::None => {"))
# derive.rs
mu("d-mapped-param-bounds", (DR, 1, "                            &[&dst_type_ident],\n                        )?\n                        .without_maybe_bounds(),", "                            &[&src_type_ident],\n                        )?\n                        .without_maybe_bounds(),"))
mu("d-other-bounds-src-only", (DR, 1, "                                &[&src_type_ident, &dst_type_ident],", "                                &[&src_type_ident],"))
mu("d-other-bounds-dst-only", (DR, 1, "                                &[&src_type_ident, &dst_type_ident],", "                                &[&dst_type_ident],"))
mu("d-lifetime-bounds-lost", (DR, 1, "            bound @ TypeParamBound::Lifetime(..) => unique_type_bounds.add(bound.clone()),", "            TypeParamBound::Lifetime(lifetime) => {\n                if lifetime.ident == \"static\" {\n                    unique_type_bounds.add(bound.clone());\n                }\n            }"))
mu("d-where-dst-only-types", (DR, 1, "                unique_predicates\n                    .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))\n                    .add_err_to(&mut result_builder);", "                if !matches!(&predicate, WherePredicate::Type(t) if t.lifetimes.is_some()) {\n                    unique_predicates\n                        .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))\n                        .add_err_to(&mut result_builder);\n                }"))
mu("d-maybe-any-type", (DR, 1, "                        if predicate_type\n                            .bounded_ty\n                            .clone()\n                            .subs_type(&mapped_type_param.type_param.ident, &src_type_ident)\n                            == src_type_ident.clone().into_type() =>", "                        if matches!(predicate_type.bounded_ty, syn::Type::Path(..)) =>"))
mu("d-last-field-dropped-pred", (DR, 1, "                        for predicate in mapped.predicates.into_iter() {", "                        for predicate in mapped.predicates.into_iter().take(if field_idx > 3 { 1 } else { usize::MAX }) {"))
mu("d-field-order", (DR, 1, "                        patterns.push(pattern);\n                        mappings.push(quote!(#member: #tokens));", "                        patterns.push(pattern);\n                        let at = if field.ident.is_none() && field_idx == 3 { 2 } else { mappings.len() };\n                        mappings.insert(at, quote!(#member: #tokens));"))
mu("d-const-default-kept", (DR, 1, "const_param.clone().without_attrs().without_default(),", "const_param.clone().without_default(),"))
mu("d-lifetime-attrs-kept", (DR, 1, "GenericParam::Lifetime(lifetime_param.clone().without_attrs())", "GenericParam::Lifetime(lifetime_param.clone())"))
mu("d-field-prefix", (DR, 0, "\"field_{}\"", "\"{}\""))
mu("d-field-callsite", (DR, 1, "                            span = Span::mixed_site()\n", "                            span = field_ident.span()\n"))
mu("d-output-ambiguous-off", (DR, 1, "    let is_output_ambiguous = input.variants.iter().any(|variant| {", "    let is_output_ambiguous = input.variants.len() > 1 && input.variants.iter().any(|variant| {"))
mu("d-sized-src-only", (DR, 1, "                    src_args.clone().collect::<Vec<_>>(),\n                    dst_args", "                    src_args.clone().collect::<Vec<_>>(),\n                    src_args"))
mu("d-sized-never", (DR, 1, "            if is_maybe_unsized {", "            if is_maybe_unsized && input.variants.len() > 1 {"))
mu("d-err-early", (DR, 1, "        .collect_with_errors()?;\n\n    Ok(quote! {", "        .collect::<Result<Vec<_>, Error>>()?;\n\n    Ok(quote! {"), (DR, 1, "use crate::result::{self, Error, IteratorExt, ResultExt};", "use crate::result::{self, Error, ResultExt};"))
mu("d-err-type-e", (DR, 1, "    let err_type_ident = ident_collector.reserve_uppercase_letter('E', Span::mixed_site());", "    let err_type_ident = ident_collector.reserve_uppercase_letter('F', Span::mixed_site());"))
mu("d-fn-type-unreserved", (DR, 1, "    let fn_type_ident = ident_collector.reserve_uppercase_letter('F', Span::mixed_site());", "    let fn_type_ident = Ident::new(\"F\", Span::mixed_site());"))
mu("d-fn-var-callsite", (DR, 1, "Ident::new(\"f\", Span::mixed_site())", "Ident::new(\"f\", Span::call_site())"))
mu("d-drop-where-lost", (DR, 1, "                #where_clause\n            {}", "            {}"))
mu("d-no-drop-same-marker", (DE, 1, "            Self::Fallible => NO_DROP_MARKER_FALLIBLE_TRAIT_IDENT,", "            Self::Fallible => NO_DROP_MARKER_TRAIT_IDENT,"))
mu("d-lints-lost", (DR, 1, "        #[allow(non_camel_case_types)]\n", ""))
mu("d-deprecated-lost", (DR, 1, "        #[allow(deprecated)]\n", ""))
# ident collector
mu("i-unraw", (IC, 1, "ident.unraw().to_string()", "ident.to_string()"))
mu("i-second-round", (IC, 1, "                        i => format!(\"__FUNCMAP_{letter}{i}\"),", "                        _ => format!(\"__FUNCMAP_{letter}\"),"))
mu("i-unchecked-first", (IC, 1, ".find(|letter| !self.idents.contains(letter))", ".find(|letter| letter.len() > 1 || !self.idents.contains(letter))"))
mu("i-no-insert", (IC, 1, "        self.idents.insert(letter);\n", "        if letter.len() == 1 {\n            self.idents.insert(letter);\n        }\n"))
mu("i-only-generics", (IN, 1, "        ident_collector.visit_derive_input(&derive_input);", "        ident_collector.visit_generics(&derive_input.generics);\n        ident_collector.visit_data(&derive_input.data);"))
mu("i-only-data", (IN, 1, "        ident_collector.visit_derive_input(&derive_input);", "        ident_collector.visit_ident(&derive_input.ident);\n        ident_collector.visit_data(&derive_input.data);\n        for param in &derive_input.generics.params {\n            ident_collector.visit_generic_param(param);\n        }"))
# input.rs
mu("n-params-idx", (IN, 1, "                    Some(MappedTypeParam {\n                        param_idx,\n                        marker_idx,", "                    Some(MappedTypeParam {\n                        param_idx,\n                        marker_idx: if mapped_type_param_idents.is_empty() { marker_idx } else { marker_idx.min(1) },"))
mu("n-marker-types-only", (IN, 1, "            .filter(|(_, param)| param.is_typish())", "            .filter(|(_, param)| matches!(param, GenericParam::Type(..)))"))
mu("n-lifetime-param-silent", (IN, 1, "                (Some(GenericParam::Lifetime(..)), param) => {\n                    result_builder.add_err(syn::Error::new_spanned(\n                        param,\n                        format!(\"cannot implement {TRAIT_IDENT} over lifetime parameter\"),\n                    ));\n                }", "                (Some(GenericParam::Lifetime(..)), _) => {}"))
mu("n-unknown-silent", (IN, 1, "                (_, param) => {\n                    result_builder\n                        .add_err(syn::Error::new_spanned(param, \"unknown generic parameter\"));\n                }", "                (_, param) => {\n                    if matches!(param, Param::TypeOrConst(..)) {\n                        result_builder\n                            .add_err(syn::Error::new_spanned(param, \"unknown generic parameter\"));\n                    }\n                }"))
mu("n-with-error-lost", (IN, 1, "        .with_error_from(result_builder)?;\n\n        Ok(Self {\n            meta,", "        .or_else(|err: Error| if mapped_type_params.len() > 1 { Err(err) } else { Err(err).with_error_from(result::Builder::new()) })\n        .and_then(|variants: Vec<Structish>| result_builder.err_or(variants))?;\n\n        Ok(Self {\n            meta,"))
mu("n-variant-attr-only-first", (IN, 1, "        opts::assert_absent(&variant.attrs, \"variants\").add_err_to(&mut result_builder);", "        opts::assert_absent(&variant.attrs[..variant.attrs.len().min(1)], \"variants\").add_err_to(&mut result_builder);"))
mu("n-field-attr-tuple", (IN, 1, "        opts::assert_absent(&field.attrs, \"fields\")?;", "        if field.ident.is_some() {\n            opts::assert_absent(&field.attrs, \"fields\")?;\n        }"))
mu("n-variant-fields-first-error", (IN, 2, "                .fields\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect_with_errors()", "                .fields\n                .into_iter()\n                .map(TryInto::try_into)\n                .collect::<Result<Vec<Fieldish>, Error>>()") if False else (IN, 1, "                .collect_with_errors()\n                .with_error_from(result_builder)?,", "                .collect::<Result<_, Error>>()\n                .with_error_from(result_builder)?,"))
mu("n-struct-fields-first-error", (IN, 1, "                .map(TryInto::try_into)\n                .collect_with_errors()?,", "                .map(TryInto::try_into)\n                .collect::<Result<_, Error>>()?,"))
mu("n-variants-first-error", (IN, 1, "                .map(TryInto::try_into)\n                .collect_with_errors(),\n", "                .map(TryInto::try_into)\n                .collect::<Result<_, Error>>(),\n"))
mu("n-union-early", (IN, 1, "            Data::Union(DataUnion { union_token, .. }) => iter::once(Err(syn::Error::new_spanned(\n                union_token,\n                \"expected a struct or an enum, found a union\",\n            )))\n            .collect_with_errors(),\n        }\n        .with_error_from(result_builder)?;", "            Data::Union(DataUnion { union_token, .. }) => return Err(syn::Error::new_spanned(\n                union_token,\n                \"expected a struct or an enum, found a union\",\n            ).into()),\n        }\n        .with_error_from(result_builder)?;"))
# opts
mu("o-duplicate-across", (OP, 1, "                            Arg::Params(ArgParams(values)) => {\n", "                            Arg::Params(ArgParams(values)) => {\n                                let mut seen = IndexSet::new();\n"), (OP, 1, "                                    if params.contains(&value) {", "                                    if !seen.insert(value.to_token_stream().to_string()) {"))
mu("o-duplicate-crate-ok", (OP, 1, "                            Arg::Crate(ArgCrate(value)) if crate_path.is_none() => {", "                            Arg::Crate(ArgCrate(value)) if crate_path.is_none() || crate_path.as_ref() == Some(&value) => {"))
mu("o-err-stops", (OP, 1, "                Err(err) => {\n                    result_builder.add_err(err);\n                }\n            }\n        }\n\n        result_builder", "                Err(err) => {\n                    result_builder.add_err(err);\n                    break;\n                }\n            }\n        }\n\n        result_builder"))
mu("o-empty-args-ok", (OP, 1, "        if args.is_empty() {", "        if args.is_empty() && !input.is_empty() {"))
mu("o-duplicate-crate-break", (OP, 1, "                                    \"duplicate crate path\",\n                                ));", "                                    \"duplicate crate path\",\n                                ));\n                                break;"))
mu("o-assert-absent-first", (OP, 1, "        .filter(|attr| attr.path().is_ident(&ATTR_IDENT))\n        .map(|attr| {", "        .filter(|attr| attr.path().is_ident(&ATTR_IDENT))\n        .take(1)\n        .map(|attr| {"))
# predicates
mu("p-lifetimes-ignored", (PR, 1, "                    lifetimes: predicate_type.lifetimes,", "                    lifetimes: predicate_type.lifetimes.filter(|l| l.lifetimes.len() < 2),"))
mu("p-empty-dropped-lifetime", (PR, 1, "                .or_default()\n                .extend(predicate_lifetime.bounds),", "                .or_default()\n                .extend(predicate_lifetime.bounds.into_iter().take(1)),"))
mu("p-bounds-last", (PR, 1, "                .or_default()\n                .extend(predicate_type.bounds),", "                .or_default()\n                .extend(predicate_type.bounds.into_iter().take(3)),"))
# syn_ext
mu("x-dep-qself", (SX, 1, "            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {\n                match path.segments.first() {", "            Type::Path(TypePath { qself: None, path }) => {\n                match path.segments.first() {"))
mu("x-dep-last-seg", (SX, 1, "                match path.segments.first() {", "                match path.segments.last() {"))
mu("x-subs-leading", (SX, 2, "            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {", "            Type::Path(TypePath { qself: None, path }) => {") if False else (SX, 1, "            Type::Path(TypePath { qself: None, path }) if path.leading_colon.is_none() => {\n                match path.segments.first_mut() {", "            Type::Path(TypePath { qself: None, path }) => {\n                match path.segments.first_mut() {"))
mu("x-subs-noraw", (SX, 2, "ident.unraw() == self.type_ident.unraw()", "ident == self.type_ident"))
mu("x-dep-noraw", (SX, 1, "ident.unraw() == self.type_ident.unraw()", "ident == self.type_ident"))
mu("x-subs-no-nested", (SX, 1, "        fold::fold_type(self, ty)\n", "        match ty {\n            Type::BareFn(..) => ty,\n            _ => fold::fold_type(self, ty),\n        }\n"))
mu("x-subs-no-traitobj", (SX, 1, "        fold::fold_type(self, ty)\n", "        match ty {\n            Type::TraitObject(..) => ty,\n            _ => fold::fold_type(self, ty),\n        }\n"))
mu("x-const-without-default", (SX, 1, "            Self::Const(const_param) => Self::Const(const_param.without_default()),", "            Self::Const(const_param) => Self::Const(const_param),"))
mu("x-trait-bound-attrs", (SX, 1, "impl WithoutAttrs for WherePredicate {\n    fn without_attrs(self) -> Self {\n        WithoutAttrsFolder.fold_where_predicate(self)", "impl WithoutAttrs for WherePredicate {\n    fn without_attrs(self) -> Self {\n        self"))
mu("x-maybe-all", (SX, 1, "                    TypeParamBound::Trait(TraitBound {\n                        modifier: TraitBoundModifier::Maybe(..),\n                        ..\n                    })\n                )\n            })", "                    TypeParamBound::Trait(TraitBound {\n                        modifier: TraitBoundModifier::Maybe(..),\n                        lifetimes: None,\n                        paren_token: None,\n                        ..\n                    })\n                )\n            })"))
