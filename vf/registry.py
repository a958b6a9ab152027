CHECKS = {
    'K01': ('kin', 'chain_check'),
    'K02': ('kin', 'json_check'),
    'D01': ('dsl', 'semantics_check'),
    'D02': ('dsl', 'require_check'),
    'D03': ('dsl', 'limits_check'),
    'D05': ('dslsyn', 'syntax_check'),
    'D06': ('prov', 'provenance_check'),
    'D04': ('dsl', 'static_check'),
    'P01': ('pkg', 'package_check'),
    'P03': ('pkg', 'contain_check'),
    'P02': ('sign', 'sign_check'),
    'P04': ('ana', 'record_check'),
    'P05': ('ana', 'verdict_check'),
    'A01': ('asm', 'asm_check'),
    'G01': ('fig', 'fig_check'),
    'G02': ('meet', 'meet_check'),
    'I01': ('doc', 'doc_check'),
    'I02': ('mesh', 'mesh_check'),
    'G05': ('vox', 'vox_check'),
    'A05': ('ops', 'ops_check'),
    'A06': ('graf', 'graf_check'),
    'B01': ('brep', 'brep_check'),
    'M01': ('meta', 'meta_check'),
    'A02': ('mate', 'mate_check'),
    'A03': ('reg', 'reg_check'),
    'G04': ('oct', 'oct_check'),
    'C01': ('col', 'col_check'),
    'F01': ('path', 'path_check'),
    'F02': ('seg', 'seg_check'),
    'G03': ('out', 'out_check'),
    'A04': ('kint', 'kint_check'),
    'D07': ('shape', 'shape_check'),
}
