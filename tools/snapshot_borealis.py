"""One-off: wrote spec/borealis_tables.json from borealis_formats.py at the pinned commit (with
the two repairs of the rawrf formats), dimensions and padding rules added by hand from the
documented file layouts.  The file is the reference from here on and is not regenerated by any check."""
import json
import sys
from pydarnio import borealis_formats as F
D=F.borealis_version_dict
out={}
def tn(t):
    import numpy as np
    return {str:'str'}.get(t, getattr(t,'__name__',str(t)))
for v in ['v0.4','v0.5','v0.6','v0.7']:
    for t,c in D[v].items():
        e=dict(single={k:tn(x) for k,x in c.single_element_types().items()}, array={k:tn(x) for k,x in c.array_dtypes().items()},
          shared=c.shared_fields())
        try: e['unshared']=c.unshared_fields()
        except Exception as ex: e['unshared']=repr(ex)
        e['aspec']=c.array_specific_fields(); e['sspec']=c.site_specific_fields()
        for m in ['site_single_element_types','site_array_dtypes','array_single_element_types','array_array_dtypes']:
            try: e[m]={k:tn(x) for k,x in getattr(c,m)().items()}
            except Exception as ex: e[m]=repr(ex)
        out[v+' '+t]=e
snap = out
D={'sqn_timestamps':['seq'],'noise_at_freq':['seq'],'main_acfs':['beam','range','lag'],'intf_acfs':['beam','range','lag'],'xcfs':['beam','range','lag'],
'beam_nums':['beam'],'beam_azms':['beam'],'blanked_samples':['blank'],'pulse_phase_offset':['phase'],'tx_antenna_phases':['tx']}
out={}
for k,e in snap.items():
    v,t=k.split()
    single=e['single']; arr=e['array']
    if t=='rawrf':
        f=dict(restructurable=False, site_attrs=single, site_arrays=arr, array_attrs={}, array_arrays={}, shared=[], unshared={}, counts={}, site_only={}, array_only={})
    else:
        un={}
        for u in e['unshared']:
            if u in single: un[u]=[]
            elif u=='data': un[u]=['ant','seq','beam','samp'] if t=='bfiq' else ['ant','seq','samp']
            else: un[u]=D[u]
        sd=[x for x in e['sspec'] if x.endswith('descriptors')][0]; dd=[x for x in e['sspec'] if x.endswith('dimensions')][0]
        names={'rawacf':['num_beams','num_ranges','num_lags'],'bfiq':['num_antenna_arrays','num_sequences','num_beams','num_samps'],'antennas_iq':['num_antennas','num_sequences','num_samps']}[t]
        an={'rawacf':['num_records','max_num_beams','num_ranges','num_lags'],'bfiq':['num_records','num_antenna_arrays','max_num_sequences','max_num_beams','num_samps'],'antennas_iq':['num_records','num_antennas','max_num_sequences','num_samps']}[t]
        dims={'rawacf':['beam','range','lag'],'bfiq':['ant','seq','beam','samp'],'antennas_iq':['ant','seq','samp']}[t]
        f=dict(restructurable=True, site_attrs=e['site_single_element_types'], site_arrays=e['site_array_dtypes'],
          array_attrs=e['array_single_element_types'], array_arrays=e['array_array_dtypes'], shared=[x for x in e['shared'] if x not in e['unshared']], unshared=un,
          counts={x:{'num_beams':'beam','num_blanked_samples':'blank'}[x] for x in e['aspec'] if x.startswith('num')},
          descriptors=sd, dimensions=dd, site_descriptors=names, array_descriptors=an, dims=dims,
          flat=[] if v=='v0.7' and t=='rawacf' else (['main_acfs','intf_acfs','xcfs'] if t=='rawacf' else ['data']))
    out.setdefault(v,{})[t]=f
json.dump(out, open(sys.argv[1], 'w'),indent=1,sort_keys=True)
