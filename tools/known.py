import json,subprocess
F={
'b030057':('C01','TractorMultiprocMixin lost its pool, returned no models and left the engine without images when a task failed'),
'601fbee':('C02','an unpickled Tractor had no model_kwargs or cache'),
'575d7d1':('C04','rendering an NCircularGaussianPSF shifted the shared mixture in place: later or concurrent renderings were displaced'),
'e4bfccd':('C03','NCircularGaussianPSF.hashkey and copy ignored frozen parameters: stale cached models'),
'1f414ed':('C04','NormalizedPsf rescaled the arrays of the PSF it wraps: each evaluation changed the next'),
'0625784':('C15','setStepSizes with frozen parameters indexed its argument by raw index'),
'6c072e7':('C15','getGaussianPriors returned raw indices and included frozen parameters'),
'cd684f4':('C15','bounds and maximum steps had the wrong length for several Params classes'),
'ce1843b':('C15','a parameter vector of the wrong length was partly applied before the error'),
'f67d313':('C15','EllipseESoft.getAllStepSizes failed'),
'd39308c':('C15','copying a multi-band brightness lost its frozen flags'),
'db79383':('C03','cached models were looked up under a hash of part of what they depend on'),
'd80b793':('C09','Cache lost entries or raised when shared by threads; replacing an item evicted another; mpcache could not be imported'),
'bb7b96f':('C03','cached models ignored the image\'s modelMinval'),
'cf1916c':('C07','an operation cut short by an exception left stepped parameters, missing images or changed error settings behind'),
'fcf0768':('C07','Ceres callbacks swallowed exceptions and left trial parameters behind; several Ceres option errors'),
'ab2758e':('C08','forced photometry with regions of interest, frozen sources or sky: wrong pixels, statistics and variances'),
'304aa5d':('C07','bare excepts swallowed an interrupt while making a Patch or converting positions'),
'71bf561':('C05','shared_params optimization failed when the last parameters do not affect the images'),
'11fb2e7':('C05','batched optimizer: a failed or non-finite solve crashed instead of giving no step; priors on unobserved bands'),
'de32e8a':('C05','a non-finite update direction or failed Ceres fit crashed or was reported as progress'),
'72b7e62':('C16','batched optimizer: flux derivatives lacked the photometric calibration scale'),
}
log=dict(l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines())
import sys
extra=json.load(open('/verif/tools/fixes_extra.json'))  
out=[]
for h,(p,w) in list(F.items())+[(k,tuple(v)) for k,v in extra.items()]:
    assert h in log or h[:7] in log,h
    out.append(dict(id='F%02d'%(len(out)+1),status='fixed',property=p,commit=h,what=w,line='fixed: property=%s %s %s'%(p,h,w)))
missing=[h for h,s in log.items() if s.startswith('fix:') and h not in [o['commit'] for o in out]]
print('missing',missing)
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
