# Lists the public calls with the role of each argument, from the headers:
# h handle, n count, a input array, b output array, O output array of new references,
# R output, C output new reference, i index, v any other value, s string
import re,glob
SKIP={'ccs_parameter_convert_samples','ccs_init','ccs_fini','ccs_retain_object','ccs_release_object','ccs_object_set_destroy_callback','ccs_object_set_user_data','ccs_object_get_user_data','ccs_object_set_serialize_callback','ccs_object_serialize','ccs_object_deserialize',
'ccs_get_result_name','ccs_create_rng_with_type','ccs_set_thread_error','ccs_create_thread_error','ccs_thread_error_stack_push','ccs_create_error_stack','ccs_error_stack_push','ccs_error_stack_get_elems','ccs_clear_thread_error',
'ccs_rng_get_type','ccs_rng_get_gsl_rng','ccs_rng_set_seed','ccs_configuration_space_set_distribution','ccs_distribution_get_data_types','ccs_distribution_get_bounds','ccs_distribution_check_oversampling','ccs_distribution_sample','ccs_distribution_samples','ccs_distribution_strided_samples','ccs_distribution_soa_samples','ccs_distribution_parameters_samples','ccs_distribution_parameters_sample','ccs_expression_eval','ccs_expression_list_eval_node','ccs_configuration_space_add_parameters','ccs_create_tree','ccs_error_stack_get_message','ccs_error_stack_get_code'}
out=[]
for f in sorted(glob.glob('/repo/include/cconfigspace/*.h')):
    s=open(f).read(); s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//.*','',s)
    for m in re.finditer(r'extern\s+ccs_result_t\s+(ccs_\w+)\s*\(([^;]*)\)\s*;',s,flags=re.S):
        fn,ps=m.group(1),re.sub(r'\s+',' ',m.group(2)).strip()
        if fn in SKIP or '...' in ps or 'vector' in ps or 'void *' in ps or 'void **' in ps or fn.startswith('ccs_interval'): continue
        ps=[p.strip() for p in ps.split(',')]; spec=''; cnt=False
        for k,p in enumerate(ps):
            mm=re.match(r'(.*?)(\w+)$',p); ty,nm=mm.group(1).strip(),mm.group(2)
            ptr=ty.endswith('*')
            if ty=='const char *': c='s'
            elif ty=='const char **': c='R'
            elif ptr:
                base=ty.rstrip('*').replace('const','').strip()
                handle=base.startswith('ccs_') and base[4:-2] in ('object','rng','distribution','parameter','expression','context','configuration_space','objective_space','features_space','configuration','features','evaluation','features_evaluation','tuner','features_tuner','tree','tree_space','tree_configuration','tree_evaluation','tree_tuner','map','binding','error_stack')
                new=handle and (fn.startswith('ccs_create_') or fn.endswith(('_sample','_samples','_ask','_suggest','_get_default_configuration','_get_default_distribution')))
                if not cnt or (nm.endswith('_ret') and nm!='values_ret'): c='C' if new else 'R'
                elif 'const' in ty: c='a'
                elif new and not fn.startswith('ccs_create'): c='O'
                elif nm in ('indexes','results','values_ret','indices'): c='b'
                elif nm in ('parameters',) and 'indexes' in fn: c='a'
                elif '_get_' in fn or 'sample' in fn: c='b'
                else: c='a'
            else:
                nxt=ps[k+1] if k+1<len(ps) else ''
                if ty=='size_t' and (nm.startswith('num_') or nm=='position_size') : c='n'; cnt=True
                elif ty=='size_t': c='i'
                elif re.match(r'ccs_(object|rng|distribution|parameter|expression|context|configuration_space|objective_space|features_space|configuration|features|evaluation|features_evaluation|tuner|features_tuner|tree|tree_space|tree_configuration|tree_evaluation|tree_tuner|map|binding|error_stack)_t$',ty): c='h'
                else: c='v'
            spec+=c
        out.append(f'API({fn}, "{spec}")')
print('\n'.join(out))
