From 2a5963d1d0adde52a97e54b9d27e1b2747de366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 01/58] fix: Posterior.aic returns the AICc instead of raising
 it

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..757bd8b 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -215,7 +215,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From d33a20836b1f9a31d176327ef6e747f3d3db99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 02/58] fix: decorrelate each variable with its own
 coefficient, also for linear gamma

The coefficient was looked up by splitting the parameter name and by substring,
so names containing underscores failed, names contained in other names shared
coefficients, and the analytic gamma ignored the decorrelation.
---
 radvel/likelihood.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..41785e0 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -340,6 +340,7 @@ class RVLikelihood(Likelihood):
         self.telvec = np.array([self.suffix]*len(t))
 
         self.decorr_params = []
+        self.decorr_vars = list(decorr_vars)
         self.decorr_vectors = decorr_vectors
         if len(decorr_vars) > 0:
             self.decorr_params += ['c1_'+d+suffix for d in decorr_vars]
@@ -356,29 +357,22 @@ class RVLikelihood(Likelihood):
         """Residuals
         Data minus model
         """
-        mod = self.model(self.x)
+        res = self.y - self.model(self.x)
+
+        for var, parname in zip(self.decorr_vars, self.decorr_params):
+            if np.isfinite(self.decorr_vectors[var]).all():
+                vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                res = res - self.vector.vector[self.vector.indices[parname]][0] * vec
 
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
-            ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
+            ztil = np.sum(res/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
             if np.isnan(ztil):
                  ztil = 0.0
             self.vector.vector[self.gamma_index][0] = ztil
 
-        res = self.y - self.vector.vector[self.gamma_index][0] - mod
-
-        if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
+        res = res - self.vector.vector[self.gamma_index][0]
+
         return res
 
     def errorbars(self):
-- 
2.43.0


From 03fe53321a48392d8ae3c3d8ce6187f85090dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 03/58] fix: give every parameter its own row in the parameter
 vector

Parameters whose names do not start with gamma, jit, logjit or gp (decorrelation
coefficients declared in a setup file, parameters of custom forward models) had
no row: they could not vary, and rows and names of later parameters went out of
step or past the end of the vector.
---
 radvel/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 255089a..2bef9ce 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -192,11 +192,6 @@ class Vector(object):
 
     def init_index_dict(self):
         indices = dict()
-        n = 0
-        for k in self.params.keys():
-            if k.startswith('gamma') or k.startswith('jit') or k.startswith('logjit') or k.startswith('gp'):
-                indices.update({k:2 + n + (5*self.params.num_planets)})
-                n += 1
         for num_planet in range(1, self.params.num_planets+1):
             indices.update({'per'+str(num_planet):-5+(5*num_planet),'logper'+str(num_planet):-5+(5*num_planet),
                          'tc'+str(num_planet):-4+(5*num_planet),'tp'+str(num_planet):-4+(5*num_planet),
@@ -206,6 +201,13 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        # every other parameter (offsets, jitters, hyperparameters, decorrelation
+        # coefficients, parameters of custom forward models) gets a row of its own
+        n = 0
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From 166b0eabc78f233900b7c29abe795a34da8da2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 04/58] fix: CompositeLikelihood holds the measured velocities
 of every instrument

The initial offset was subtracted from all instruments but the first.
---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 41785e0..68d7d1f 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -258,7 +258,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From dc382aec07c6848d58b71463e83985d65a47cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 05/58] fix: v_from_synth frees the converted conjunction time,
 not the periastron angle

---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..4167f14 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -418,7 +418,7 @@ class Basis(object):
                                                                       vector[(5*num_planet)][0],
                                                                       vector[2+(5*num_planet)][0],
                                                                       vector[3+(5*num_planet)][0])
-                setvary([3+(5*num_planet)])
+                setvary([1+(5*num_planet)])
 
             if newbasis == 'per tc se w k':
                 vector2[1 + (5 * num_planet)][0] = timeperi_to_timetrans(vector[1 + (5 * num_planet)][0],
-- 
2.43.0


From 5851f1f483996ecd983775cf6fd2bebc88875a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 06/58] fix: from_synth(keep=False) leaves exactly the new
 basis' parameters, also in tables

---
 radvel/basis.py | 68 +++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 4167f14..f7d33ac 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -18,6 +18,9 @@ BASIS_NAMES = ['per tp e w k',  # The synth basis
                'per tc se w k',
                'logper tp e w logk']
 
+# every orbital parameter of any basis
+ORBITAL_PARAMS = sorted(set(' '.join(BASIS_NAMES).split()))
+
 ECCENTRICITY_PARAMS_DICT = {
               'per tp e w k': 'e w',
               'per tc secosw sesinw logk': 'secosw sesinw',
@@ -539,10 +542,9 @@ class Basis(object):
                                                                   mcmcscale=local_mcmcscale)
 
             def _delpar(key):
-                if isinstance(params_in, OrderedDict):
-                    del params_out['{}{}'.format(key, num_planet)]
-                elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                key_name = '{}{}'.format(key, num_planet)
+                if key_name in params_out:
+                    del params_out[key_name]
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -553,9 +555,6 @@ class Basis(object):
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
                 _setpar('w', w)
 
-                if not kwargs.get('keep', True):
-                    _delpar('tp')
-
             if newbasis == 'per tc tp e w k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -575,16 +574,12 @@ class Basis(object):
                 _setpar('w', w)
                 _setpar('se', np.sqrt(e))
 
-                if not kwargs.get('keep', True):
-                    _delpar('tp')
-                    _delpar('e')
-
             if newbasis == 'per tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -596,12 +591,6 @@ class Basis(object):
                 _setpar('logk', np.log(k))
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                if not kwargs.get('keep', True):
-                    _delpar('tp')
-                    _delpar('e')
-                    _delpar('w')
-                    _delpar('k')
-
                 # basis_name = newbasis
                 self.params = newbasis.split()
 
@@ -610,7 +599,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -621,11 +610,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                if not kwargs.get('keep', True):
-                    _delpar('tp')
-                    _delpar('e')
-                    _delpar('w')
-
                 self.name = newbasis
                 self.params = newbasis.split()
 
@@ -634,7 +618,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -646,12 +630,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                if not kwargs.get('keep', True):
-                    _delpar('per')
-                    _delpar('tp')
-                    _delpar('e')
-                    _delpar('w')
-
                 self.name = newbasis
                 self.params = newbasis.split()
 
@@ -660,7 +638,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -672,13 +650,6 @@ class Basis(object):
                 _setpar('logk', np.log(k))
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                if not kwargs.get('keep', True):
-                    _delpar('per')
-                    _delpar('tp')
-                    _delpar('e')
-                    _delpar('w')
-                    _delpar('k')
-
                 self.name = newbasis
                 self.params = newbasis.split()
 
@@ -687,7 +658,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -698,11 +669,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                if not kwargs.get('keep', True):
-                    _delpar('tp')
-                    _delpar('e')
-                    _delpar('w')
-
                 self.name = newbasis
                 self.params = newbasis.split()
 
@@ -711,7 +677,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if 'tp{}'.format(num_planet) in params_in:
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -720,15 +686,15 @@ class Basis(object):
 
                 _setpar('logper', np.log(per))
                 _setpar('logk', np.log(k))
-                _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
-
-                if not kwargs.get('keep', True):
-                    _delpar('per')
-                    _delpar('k')
 
                 self.name = newbasis
                 self.params = newbasis.split()
 
+            if not kwargs.get('keep', True):
+                for key in ORBITAL_PARAMS:
+                    if key not in newbasis.split():
+                        _delpar(key)
+
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From 6dae6b333aaf58337beca600ed8aa8f96ababcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 07/58] fix: from_synth leaves the basis it is called on
 unchanged

---
 radvel/basis.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index f7d33ac..71a389f 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -591,9 +591,6 @@ class Basis(object):
                 _setpar('logk', np.log(k))
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -610,9 +607,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -630,9 +624,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -650,9 +641,6 @@ class Basis(object):
                 _setpar('logk', np.log(k))
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -669,9 +657,6 @@ class Basis(object):
                 _setpar('k', k)
                 _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -687,9 +672,6 @@ class Basis(object):
                 _setpar('logper', np.log(per))
                 _setpar('logk', np.log(k))
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if not kwargs.get('keep', True):
                 for key in ORBITAL_PARAMS:
                     if key not in newbasis.split():
-- 
2.43.0


From cbd274a51306f619e9ea7af3e098c509c57ef11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 08/58] fix: secondary eclipse follows periastron within one
 period, for scalars and arrays

---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..4cf4881 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = np.mod(ee, 2 * np.pi)
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From 2125363ae2398e6fa8f3c8cce3e39c919f76bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 09/58] fix: PositiveKPrior reads ln K as such in the bases
 that use it

---
 radvel/prior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..074b6d7 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -174,10 +174,10 @@ class PositiveKPrior(Prior):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
         for num_planet in range(1, self.num_planets+1):
-            try:
-                k = _getpar('k', num_planet)
-            except KeyError:
+            if 'logk' in params.basis.name.split():
                 k = np.exp(_getpar('logk', num_planet))
+            else:
+                k = _getpar('k', num_planet)
 
             if k < 0.0:
                 return -np.inf if not finite else -1e100
-- 
2.43.0


From 963eca138d97f30f2db782b2b9660f9292d80789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 10/58] fix: SecondaryEclipsePrior compares with the nearest
 eclipse and works in nested sampling

---
 radvel/prior.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 074b6d7..0996022 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -280,7 +280,7 @@ class SecondaryEclipsePrior(Prior):
         self.ts = ts
         self.ts_err = ts_err
 
-    def __call__(self, params, vector):
+    def __call__(self, params, vector, finite=False):
         def _getpar(key):
             return synth_params[vector.indices['{}{}'.format(key, self.planet_num)]][0]
 
@@ -297,7 +297,11 @@ class SecondaryEclipsePrior(Prior):
         pts = utils.t_to_phase_vector(vector, self.ts, self.planet_num)
         epts = self.ts_err / per
 
-        penalty = -0.5 * ((ts_phase - pts) / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+        # compare with the nearest eclipse: phases wrap around
+        dphase = ts_phase - pts
+        dphase -= np.round(dphase)
+
+        penalty = -0.5 * (dphase / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
 
         return penalty
 
-- 
2.43.0


From 1714dab3763b30e48cf09826e4acc10b0271f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 11/58] fix: nested sampling accounts for numerical and
 user-defined priors

---
 radvel/posterior.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 757bd8b..24c6342 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -57,13 +57,14 @@ class Posterior(Likelihood):
         prior_dict = dict()
         for prior in self.priors:
             try:
-                param = prior.param
+                param_list = [prior.param]
             except AttributeError:
-                continue
-            if param not in prior_dict:
-                prior_dict[param] = [prior]
-            else:
-                prior_dict[param] += [prior]
+                param_list = getattr(prior, 'param_list', [])
+            for param in param_list:
+                if param not in prior_dict:
+                    prior_dict[param] = [prior]
+                else:
+                    prior_dict[param] += [prior]
         return prior_dict
 
     def check_proper_priors(self):
@@ -73,6 +74,12 @@ class Posterior(Likelihood):
         """
         vary_params = self.name_vary_params()
         prior_dict = self.get_prior_dict()
+        for prior in self.priors:
+            if not prior.extra_constraint and len(getattr(prior, 'param_list', [])) > 1:
+                raise ValueError(
+                    "Prior transform over several parameters is not supported for nested sampling: "
+                    "{}".format(prior)
+                )
         for pname in vary_params:
             prior_list = prior_dict.get(pname, [])
             num_priors = len(prior_list)
-- 
2.43.0


From dfc51756e2133d2253239f89769aea6ce6a57e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 12/58] fix: CeleriteLikelihood factorises the kernel at the
 sorted times

---
 radvel/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 68d7d1f..1cd5019 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -581,6 +581,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.y = self.y[order]
         self.yerr = self.yerr[order]
         self.N = len(self.x)
+        self.kernel.compute_distances(self.x, self.x)
 
     def logprob(self):
 
-- 
2.43.0


From 1f09ba19ccff0c14561ee03d1e8d314c7d676df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 13/58] fix: QuasiPerKernel without amplitude keeps and shapes
 its covariance like the others

---
 radvel/gp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..64bfaf9 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,13 +327,13 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
+            self.covmatrix = np.zeros(self.dist_se.shape)
+            try:
+                self.covmatrix += (errors**2) * np.identity(self.covmatrix.shape[0])
+            except ValueError:  # errors can't be added along diagonal to a non-square array
+                pass
+
+            return self.covmatrix
 
         # Compute covariance matrix step by step
         exp_term1 = -self.dist_se/(explength**2)
-- 
2.43.0


From ec862070a26a9662ea102bb69e7cc2ba1da85414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 14/58] fix: CeleriteLikelihood.predict works with zero and
 negative jitter

---
 radvel/likelihood.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 1cd5019..f50cb64 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -621,11 +621,7 @@ class CeleriteLikelihood(GPLikelihood):
         Prot = self.kernel.hparams['gp_Prot'].value
 
         # build celerite kernel with current values of hparams
-        kernel = celerite.terms.JitterTerm(
-                log_sigma = np.log(self.vector.vector[self.jit_index][0])
-                )
-
-        kernel += celerite.terms.RealTerm(
+        kernel = celerite.terms.RealTerm(
             log_a=np.log(B*(1+C)/(2+C)),
             log_c=np.log(1/L)
         )
@@ -638,7 +634,7 @@ class CeleriteLikelihood(GPLikelihood):
         )
 
         gp = celerite.GP(kernel)
-        gp.compute(self.x, self.yerr)
+        gp.compute(self.x, self.errorbars())
         mu, var = gp.predict(self._resids(), xpred, return_var=True)
 
         stdev = np.sqrt(var)
-- 
2.43.0


From c7c2d3febb7afc44011fcf7521b5d0d35e1437b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 15/58] fix: CeleriteLikelihood.predict accepts times in any
 order

---
 radvel/likelihood.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index f50cb64..702e431 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -635,7 +635,12 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.errorbars())
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
+
+        # celerite predicts at sorted times only
+        xpred = np.asarray(xpred)
+        order = np.argsort(xpred)
+        mu, var = np.empty(len(xpred)), np.empty(len(xpred))
+        mu[order], var[order] = gp.predict(self._resids(), xpred[order], return_var=True)
 
         stdev = np.sqrt(var)
 
-- 
2.43.0


From 8f6de77ab9d9df21f592e7facca875bb1d5c7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 16/58] fix: evaluating a GP likelihood leaves the named
 parameter values alone

---
 radvel/likelihood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 702e431..4a91991 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -436,7 +436,9 @@ class GPLikelihood(RVLikelihood):
             'Available kernels: ' + str(gp.KERNELS.keys())
 
         self.hnames = hnames  # list of string names of hyperparameters
-        self.hyperparams = {k: self.params[k] for k in self.hnames}
+        # copies: the kernel follows the vector, which must not write to self.params
+        self.hyperparams = {k: radvel.model.Parameter(value=self.params[k].value)
+                            for k in self.hnames}
 
         self.kernel_call = getattr(gp, kernel_name + "Kernel")
         self.kernel = self.kernel_call(self.hyperparams)
-- 
2.43.0


From 1fd679d77dab082f77c5d9428d71ba37f4b8b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 17/58] fix: Msini converges for any mass ratio and accepts
 scalars among arrays

---
 radvel/utils.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..ce1bfa3 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -581,24 +581,17 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
             warnings.warn("Mpsini << Mstar assumption broken, correcting Msini calculation.", stacklevel=2)
 
         a = K*(((2*(np.pi)*G)/P)**(-1/3.))*np.sqrt(1-(e**2))
+        a, Mstar = np.broadcast_arrays(a, Mstar)
         Msini = []
-        if isinstance(P, float):
-            n_elements = 1
-        else:
-            assert type(K) == type(P) == type(Mstar) == type(e), "All input data types must match."
-            assert K.size == P.size == Mstar.size == e.size, "All input arrays must have the same length."
-            n_elements = len(P)
-        for i in range(n_elements):
+        for ai, mi in zip(a.ravel(), Mstar.ravel()):
             def func(x):
-                try:
-                    return x - a[i]*((Mstar[i]+x)**(2/3.))
-                except IndexError:
-                    return x - a * ((Mstar + x) ** (2 / 3.))
+                return x - ai*((mi+x)**(2/3.))
 
-            sol = root(func, Mjup)
+            # func is convex, so start at a point from which its root is approached from the right
+            sol = root(func, max(Mjup, 4*ai**3))
             Msini.append(sol.x[0])
 
-        Msini = np.array(Msini)
+        Msini = np.array(Msini).reshape(a.shape)
         Msini = Msini/Mjup
     
     if Msini_units.lower() == 'jupiter':
-- 
2.43.0


From d5f5a1b3460a2f4d4654cc4d5f711fdd2c7fd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:52 +0000
Subject: [PATCH 18/58] fix: geterr unwraps angles on a copy of the samples

---
 radvel/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index ce1bfa3..e0e2e98 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -456,10 +456,8 @@ def geterr(vec, angular=False):
         tuple: 50, 15.9 and 84.1 percentiles
     """
 
-    try:
-        vec = vec.values
-    except AttributeError:
-        pass
+    # unwrapping must not change the samples of the caller
+    vec = np.array(vec)
 
     if angular:
         val, edges = np.histogram(vec, bins=50)
-- 
2.43.0


From e776da175639f27496c2b9ff7c155aaa211579c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 19/58] fix: date2jd keeps fractions of a second

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index e0e2e98..c69da8a 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -420,7 +420,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.total_seconds()/86400.0
     return jd
 
 
-- 
2.43.0


From 966bbb6afc6f9e35f73170f07d462888c2001cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 20/58] fix: t_to_phase works in the bases that use ln P

---
 radvel/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index c69da8a..11873ba 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -362,7 +362,10 @@ def t_to_phase(params, t, num_planet, cat=False):
     elif ('tp%i' % num_planet) in params:
         timeparam = 'tp%i' % num_planet
 
-    P = params['per%i' % num_planet].value
+    if ('per%i' % num_planet) in params:
+        P = params['per%i' % num_planet].value
+    else:
+        P = np.exp(params['logper%i' % num_planet].value)
     tc = params[timeparam].value
     phase = np.mod(t - tc, P)
     phase /= P
-- 
2.43.0


From bf5684816d25f16c09791c63557a282522e623a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 21/58] fix: phases stay below one just before the reference
 event

---
 radvel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 11873ba..8e0f987 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -368,7 +368,7 @@ def t_to_phase(params, t, num_planet, cat=False):
         P = np.exp(params['logper%i' % num_planet].value)
     tc = params[timeparam].value
     phase = np.mod(t - tc, P)
-    phase /= P
+    phase = np.mod(phase / P, 1)    # a tiny negative t - tc rounds to a whole period
     if cat:
         phase = np.concatenate((phase, phase+1))
     return phase
@@ -380,7 +380,7 @@ def t_to_phase_vector(vector, t, num_planet, cat=False):
     P = synth_params[-5+(5*num_planet)][0]
     tc = synth_params[-4+(5*num_planet)][0]
     phase = np.mod(t - tc, P)
-    phase /= P
+    phase = np.mod(phase / P, 1)    # a tiny negative t - tc rounds to a whole period
     if cat:
         phase = np.concatenate((phase, phase + 1))
     return phase
-- 
2.43.0


From acfa9a22e5a56a39c13987abc9e2f22e486e4b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 22/58] fix: model_comp starts from an empty list on every call

The default list was shared by all calls, so that a second comparison
also returned the entries of the first.
---
 radvel/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..48fd76e 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -46,7 +46,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -70,6 +70,8 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
 
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
+    if mc_list is None:
+        mc_list = []
     assert isinstance(mc_list, list), \
         "mc_list must be either an empty list or a list of model comparison dictionaries"
     assert isinstance(params, list), \
-- 
2.43.0


From 32462200c73cc865cee614f161fd001cf36a2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 23/58] fix: comparing models without the Gaussian process
 switches it off

The hyperparameters stayed free (the value was set instead of the flag,
and the first instrument's were not listed), so that the model 'without'
the process was the full one; and the input posterior was refitted.
---
 radvel/fitting.py    | 20 ++++++++++++--------
 radvel/likelihood.py |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 48fd76e..3c46e0f 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -187,26 +187,30 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
-            post.list_vary_params()
-            post.likelihood.list_vary_params()
-            mc_list = model_comp(post, newparams, mc_list=mc_list)
+            ipost = copy.deepcopy(post)
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
+            mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             return mc_list
         else:
             if verbose:
                 print("Warning: You requested a GP BIC/AIC comparison")
                 print("   However, your model does not include GPs")
-            post.list_vary_params()
-            post.likelihood.list_vary_params()
-            mc_list = model_comp(post, newparams, mc_list=mc_list)
+            ipost = copy.deepcopy(post)
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
+            mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             return mc_list
 
     elif 'jit' in params:
diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 4a91991..77459cb 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -252,7 +252,7 @@ class CompositeLikelihood(Likelihood):
         self.extra_params = like0.extra_params
         self.suffixes = like0.suffix
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
-- 
2.43.0


From c946429c7cde73a2ff6fe054d6b4143137cec122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 24/58] fix: model comparison reports the likelihood its BIC
 and AICc are made of

The entry described as log-likelihood included the priors.
---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 3c46e0f..ce9f71e 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -119,7 +119,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         #    np.round(chi_red,2), "jitter fixed"
         # )
         pdict[r'$\ln{\mathcal{L}}$'] = (
-            np.round(fitpost.logprob(), 2), "natural log of the likelihood"
+            np.round(fitpost.likelihood.logprob(), 2), "natural log of the likelihood"
         )
         pdict['BIC'] = (
             np.round(fitpost.likelihood.bic(), 2),
-- 
2.43.0


From e3dc90ba8ac0701ad54bb471e14e65bb6ec8b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 25/58] fix: ic --fixjitter fixes the jitters

Only the flags of the named parameters were set, not those of the vector
from which the free parameters are listed.
---
 radvel/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..93635e8 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,7 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+                    ipost.vector.vector[ipost.vector.indices[param]][1] = False
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From 112c364c82a911d24565807e2a8ff1e8cb243b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 26/58] fix: maxlike_fitting ends at the optimiser's result

The posterior was left at the last point that was evaluated.
---
 radvel/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index ce9f71e..a5c01bf 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -33,10 +33,11 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
         print("Performing maximum a posteriori fit...")
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
+        res = scipy.optimize.minimize(
             post.neglogprob_array, post.get_vary_params(), method=method,
             options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
-    post.vector.vector_to_dict()
+    # the last point evaluated need not be the best one
+    post.set_vary_params(res.x)
 
     if verbose:
         print("Final loglikelihood = %f" % post.logprob())
-- 
2.43.0


From b2144ffdbbcd3ef346a158fe953b84ec5f5bcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 27/58] fix: mcmc runs exactly the requested steps, each round
 from where the last ended

Each round restarted from the first sample of the last one, storing it twice;
the run overshot the requested steps and failed for checkinterval=1.
---
 radvel/mcmc.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..7d4e641 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -276,7 +276,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         statevars.ensembles = ensembles
         statevars.nwalkers = nwalkers
-        statevars.checkinterval = checkinterval - 1
+        statevars.checkinterval = checkinterval
 
         nrun = int(nrun)
 
@@ -343,7 +343,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 sampler.backend.accepted = statevars.preaccepted[i]
                 sampler.backend.iteration = statevars.prechains[i].shape[0]
 
-        num_run = int(np.round(nrun / (checkinterval -1)))
+        num_run = max(1, int(np.round(nrun / checkinterval)))
         statevars.totsteps = nrun*statevars.nwalkers*statevars.ensembles
         statevars.mixcount = 0
         statevars.ismixed = 0
@@ -367,14 +367,13 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             t1 = time.time()
             mcmc_input_array = []
             for i, sampler in enumerate(statevars.samplers):
-                if sampler.iteration <= 1 or statevars.proceed_started == 0:
+                if sampler.iteration == 0 or statevars.proceed_started == 0:
                     p1 = statevars.initial_positions[i]
                     statevars.proceed_started = 1
                 else:
                     p1 = sampler.get_last_sample()
-                for sample in sampler.sample(p1, store=True):
-                    mcmc_input = (sampler, p1, (checkinterval - 1))
-                    mcmc_input_array.append(mcmc_input)
+                mcmc_input = (sampler, p1, checkinterval)
+                mcmc_input_array.append(mcmc_input)
 
             if serial:
                 statevars.samplers = []
-- 
2.43.0


From 04b1cc805628972e6e352cef08f4428800a29726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 28/58] fix: a check made too early breaks a series of
 well-mixed checks

---
 radvel/mcmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 7d4e641..3a0211d 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -144,6 +144,7 @@ def convergence_check(minAfactor, maxArchange, maxGR, minTz, minsteps, minpercen
     if statevars.pcomplete < minpercent and sampler.get_log_prob(flat=True).shape[0] <= minsteps*statevars.nwalkers:
         (statevars.ismixed, statevars.minafactor, statevars.maxarchange, statevars.maxgr,
             statevars.mintz) = 0, -1.0, np.inf, np.inf, -1.0
+        statevars.mixcount = 0
     else:
         (statevars.ismixed, afactor, archange, oac, gr, tz) \
             = convergence_calculate(statevars.chains,
-- 
2.43.0


From cbf15033df08c0f79ff407905623780b86b0903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 29/58] fix: mcmc saves whole checks

The file was only complete once the process ended normally, kept ensembles of
an earlier run, and could not be continued into the same file.
---
 radvel/mcmc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 3a0211d..ec54563 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -229,9 +229,6 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         if save and savename is None:
             raise ValueError('save set to true but no savename provided')
 
-        if save:
-            h5f = h5py.File(savename, 'a')
-
         if proceed:
             if proceedname is None:
                 raise ValueError('proceed set to true but no proceedname provided')
@@ -255,9 +252,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 str_chain = str(i) + '_chain'
                 str_log_prob = str(i) + '_log_prob'
                 str_accepted = str(i) + '_accepted'
-                statevars.prechains.append(h5p[str_chain])
-                statevars.prelog_probs.append(h5p[str_log_prob])
-                statevars.preaccepted.append(h5p[str_accepted])
+                statevars.prechains.append(h5p[str_chain][:])
+                statevars.prelog_probs.append(h5p[str_log_prob][:])
+                statevars.preaccepted.append(h5p[str_accepted][:])
 
         # check if one or more likelihoods are GPs
         if isinstance(post.likelihood, radvel.likelihood.CompositeLikelihood):
@@ -394,6 +391,8 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                               minsteps=minsteps, minpercent=minpercent, headless=headless)
 
             if save:
+                # write to the side, so that the file always holds one whole run
+                h5f = h5py.File('{}.tmp'.format(savename), 'w')
                 for i, sampler in enumerate(statevars.samplers):
                     str_chain = str(i) + '_chain'
                     str_log_prob = str(i) + '_log_prob'
@@ -429,6 +428,8 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                         h5f.create_dataset('burned', data=[statevars.nburn])
                     else:
                         h5f.create_dataset('burned', data=[0])
+                h5f.close()
+                os.replace('{}.tmp'.format(savename), savename)
 
             # Burn-in complete after maximum G-R statistic first reaches burnGR or minAfactor reaches burnAfactor
             # reset samplers
-- 
2.43.0


From ae167f2d0cc7436e6cbadb3b883d0d8ca4d1f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 30/58] fix: interrupting a headless mcmc run

---
 radvel/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index ec54563..0e834bf 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -487,7 +487,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         return df
 
     except KeyboardInterrupt:
-        curses.endwin()
+        _closescr()
 
 
 def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
-- 
2.43.0


From 4cab4692c55bcafa67d2243fa3bd51f4e5b3476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 31/58] fix: convergence statistics follow Ford (2006)

The variance of the means was divided by the number of chains twice; chains
with a stuck parameter and single ensembles passed thresholds they do not meet.
---
 radvel/mcmc.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 0e834bf..9f05650 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -150,8 +150,8 @@ def convergence_check(minAfactor, maxArchange, maxGR, minTz, minsteps, minpercen
             = convergence_calculate(statevars.chains,
                                     oldautocorrelation=statevars.oac, minAfactor=minAfactor, maxArchange=maxArchange,
                                     maxGR=maxGR, minTz=minTz)
-        statevars.mintz = min(tz)
-        statevars.maxgr = max(gr)
+        statevars.mintz = np.amin(tz)
+        statevars.maxgr = np.amax(gr)
         statevars.minafactor = np.amin(afactor)
         statevars.maxarchange = np.amax(archange)
         statevars.oac = oac
@@ -566,7 +566,8 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
 
     # Equation 23: B(z) in Ford 2006
     means = np.mean(pars,axis=1)
-    betweenChainVariances = np.var(means,axis=1, dtype=np.float64) * nsteps
+    # (no variance between chains can be estimated from a single one)
+    betweenChainVariances = np.var(means,axis=1, ddof=int(nchains > 1), dtype=np.float64) * nsteps
     varEstimate = (
         (1.0 - 1.0/nsteps) * withinChainVariances
         + 1.0 / nsteps * betweenChainVariances
@@ -575,15 +576,14 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     # Tz calculation will yield only NaNs if nchains = 1.
     # Avoid calculation and warning by skipping explicitly
     if nchains != 1:
-        varianceofmeans = np.var(means,axis=1, dtype=np.float64) / (nchains-1)
+        varianceofmeans = np.var(means,axis=1, ddof=1, dtype=np.float64)
         bz = varianceofmeans * nsteps
         # Equation 24: varhat+(z) in Ford 2006
         varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
-        vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        with np.errstate(divide='ignore', invalid='ignore'):
+            vbz = varEstimate / bz
+        tz = nchains*nsteps*np.minimum(vbz, 1)
     else:
         tz = [-1]
         minTz = -np.inf
@@ -606,7 +606,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
         )
 
     # well-mixed criteria
-    ismixed = min(tz) > minTz and max(gelmanrubin) < maxGR and \
+    ismixed = np.amin(tz) > minTz and np.amax(gelmanrubin) < maxGR and \
               np.amin(afactor) > minAfactor and np.amax(archange) < maxArchange
 
     return (ismixed, afactor, archange, autocorrelation, gelmanrubin, tz)
-- 
2.43.0


From b5fcb180864605c1082e98b15e25222fe91c7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 32/58] fix: nested sampling leaves the caller's options as
 they were

A second run with the same dictionary was refused.
---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..92acfbd 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From 06eded556cbaa1f8e9cf9b00f88fadca176c691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 33/58] fix: dynesty resumes only when there is a checkpoint

proceed=True without an output directory failed.
---
 radvel/nested_sampling.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 92acfbd..b3663ad 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -75,13 +75,8 @@ def _run_dynesty(
             len(post.name_vary_params()),
             **sampler_kwargs,
         )
-        # Dynesty cannot resume when the file does not exist
-        if (
-            proceed
-            and checkpoint_file is not None
-            and not os.path.exists(checkpoint_file)
-        ):
-            run_kwargs["resume"] = False
+        # Dynesty cannot resume when there is no file to resume from
+        run_kwargs["resume"] = False
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-- 
2.43.0


From 8998378385e6f51baa25702b3d543119d6aa13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 34/58] fix: dynesty accepts an existing output directory

---
 radvel/nested_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index b3663ad..669add3 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -80,7 +80,7 @@ def _run_dynesty(
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From 3f489eae6d653de1c6143776212e5ccc554310af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 35/58] fix: multinest uses a temporary directory of its own

A directory 'tmpdir' of the user's was deleted.
---
 radvel/nested_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 669add3..03ac780 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import tempfile
 from typing import Optional
 
 import h5py
@@ -208,7 +209,7 @@ def _run_multinest(
     tmp = True
 
     if output_dir is None:
-        output_dir = "tmpdir"
+        output_dir = tempfile.mkdtemp()
     else:
         # if an actual outupt dir was specified, it is not temporary
         tmp = False
-- 
2.43.0


From 392e8ad680eea5650c2d03975f2e52d241848b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 36/58] fix: setup files with logarithmic jitters could not be
 loaded

The loop converting logjit to jit parameters added and removed keys of the
parameters it was iterating over, raising RuntimeError.
---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 8e0f987..02fbc16 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -77,7 +77,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
-- 
2.43.0


From ed07b7aed09596ea7d5648bebcc3751186ac477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 37/58] fix: radvel ic without --type failed

The default of a list option was the string 'trend', so that its letters
were taken as the types of comparison.
---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..5e7c0c1 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -169,7 +169,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
-- 
2.43.0


From 3aa923240fbe5d0c36c8c6f1ae52e29248406a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 38/58] fix: derived table was empty when asked for together
 with ic_compare

The report rebuilt for the comparison table forgot that parameters had been
derived, and the tables after it were made from that report.
---
 radvel/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 93635e8..9bebe80 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -513,7 +513,8 @@ def tables(args):
 
             compstats = eval(status.get('ic_compare', 'ic'))
             report = radvel.report.RadvelReport(
-                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats
+                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats,
+                derived=derived
             )
             tabletex = radvel.report.TexTable(report)
             tex = tabletex.tab_comparison()
-- 
2.43.0


From 09dc6e7581ea444944c0bfc392761e3fb89e7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 39/58] fix: derived parameters were combined with samples they
 were not derived from

Tables and reports joined the derived parameters of one sampler (or of an
earlier run) to the chains of another, row by row. Record the sampler they
were derived from, and mark them as out of date when it is run again.
---
 radvel/driver.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 9bebe80..a078a49 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -120,7 +120,7 @@ You may want to use the '--gp' flag when making these plots.")
             Trend.plot()
 
         if ptype == 'derived':
-            assert status.has_section('derive'), \
+            assert status.has_section('derive') and status.getboolean('derive', 'run'), \
                 "Must run `radvel derive` before plotting derived parameters"
 
             P, _ = radvel.utils.initialize_posterior(config_file)
@@ -246,6 +246,7 @@ def mcmc(args):
                  'minTz': mintz,
                  'maxGR': maxgr}
     save_status(statfile, 'mcmc', savestate)
+    _outdate_derived(statfile, 'mcmc')
 
     statevars.reset()
 
@@ -393,6 +394,7 @@ def nested_sampling(args):
                  }
     savestate = {**savestate, **sampler_kwargs, **run_kwargs}
     save_status(statfile, 'ns', savestate)
+    _outdate_derived(statfile, 'ns')
 
 
 def ic_compare(args):
@@ -493,7 +495,7 @@ def tables(args):
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
@@ -524,7 +526,7 @@ def tables(args):
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
         else:
             if tabtype == 'derived':
-                assert status.has_option('derive', 'run'), \
+                assert derived, \
                     "Must run `radvel derive` before making derived parameter table"
             assert tabtype in attrdict, 'Invalid Table Type %s ' % tabtype
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
@@ -565,6 +567,18 @@ def _pick_sampler(args, status):
     return sampler_type
 
 
+def _has_derived(status, sampler_type):
+    """Have parameters been derived from the results of this sampler?"""
+    return status.has_section('derive') and status.getboolean('derive', 'run') and \
+        status.get('derive', 'sampler', fallback=sampler_type) == sampler_type
+
+
+def _outdate_derived(statfile, sampler_type):
+    """Parameters derived from an earlier run of this sampler are out of date"""
+    if _has_derived(load_status(statfile), sampler_type):
+        save_status(statfile, 'derive', {'run': False})
+
+
 def derive(args):
     """Derive physical parameters from posterior samples
 
@@ -614,7 +628,7 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
 
     synthchains = post.params.basis.to_synth(synthchains)
 
-    savestate = {'run': True}
+    savestate = {'run': True, 'sampler': sampler_type}
     outcols = []
     for i in np.arange(1, P.nplanets + 1, 1):
         # Grab parameters from the chain
@@ -725,7 +739,7 @@ def report(args):
     chains = pd.read_csv(status.get(sampler_type, 'chainfile'))
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
-- 
2.43.0


From db6241560be00dd79c2e851f8a79a36735d60a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 40/58] fix: plot of derived parameters ignored the sampler
 asked for

The parameters derived from one sampler's results were plotted when those of
the other were asked for with --sampler.
---
 radvel/driver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index a078a49..f7cb718 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -122,6 +122,8 @@ You may want to use the '--gp' flag when making these plots.")
         if ptype == 'derived':
             assert status.has_section('derive') and status.getboolean('derive', 'run'), \
                 "Must run `radvel derive` before plotting derived parameters"
+            assert args.sampler == 'auto' or _has_derived(status, args.sampler), \
+                "Parameters were not derived from the results of --sampler={}".format(args.sampler)
 
             P, _ = radvel.utils.initialize_posterior(config_file)
             chains = pd.read_csv(status.get('derive', 'chainfile'))
-- 
2.43.0


From 029bca957dcc6c18e99020a7a160ec12fa579faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:27 +0000
Subject: [PATCH 41/58] fix: GPLikelihood.logprob returns -inf for a covariance
 that is not positive definite

numpy.linalg.linalg no longer exists, so the handler itself raised.
---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 77459cb..5da7d58 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -504,7 +504,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From f3e07105b011bdb04eed21268783ec7b9bc08c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 42/58] fix: draw_models_from_chain drew the same model for
 every sample

---
 radvel/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 02fbc16..8de5061 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -652,11 +652,16 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
     """
 
     np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    chain_samples = chain.iloc[np.random.choice(len(chain), nsamples)]
+    vary_params = mod.list_vary_params()
+    rows = [mod.vector.indices[k] for k in vary_params]
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
-        params = mod.array_to_params(params)
-        models += [mod(t)]
+    saved = mod.vector.vector.copy()
+    try:
+        for values in np.array(chain_samples[vary_params]):
+            mod.vector.vector[rows, 0] = values
+            models += [mod(t)]
+    finally:
+        mod.vector.vector[:] = saved
     models = np.vstack(models)
     return models
-- 
2.43.0


From c1e66d8b4895c94abaf3d108acba51d908913f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:56 +0000
Subject: [PATCH 43/58] fix: the trend was added into the array returned by the
 forward model

---
 radvel/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 2bef9ce..1ff2b1e 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -292,8 +292,8 @@ class GeneralRVModel(object):
             vel (array of floats): model at each time in `t`
         """
         vel = self._forward_model(t,self.params,self.vector,*args,**kwargs)
-        vel += self.vector.vector[self.vector.indices['dvdt']][0] * (t - self.time_base)
-        vel += self.vector.vector[self.vector.indices['curv']][0] * (t - self.time_base)**2
+        vel = vel + self.vector.vector[self.vector.indices['dvdt']][0] * (t - self.time_base)
+        vel = vel + self.vector.vector[self.vector.indices['curv']][0] * (t - self.time_base)**2
         return vel
 
     def array_to_params(self,param_values):
-- 
2.43.0


From 878a5bc314700225d6279c3375ffe29f5ce84c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:56 +0000
Subject: [PATCH 44/58] fix: DerivedPlot converted masses to other units in the
 caller's chains

---
 radvel/plot/mcmc_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..5cc004d 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -178,7 +178,7 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        self.chains = chains.copy()
         self.saveplot = saveplot
 
         if 'planet_letters' in dir(P):
-- 
2.43.0


From 181be19b8ee7acf9e61522975a81ea4f9f2c637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 45/58] fix: MultipanelPlot failed for posteriors without dvdt
 or curv parameters

---
 radvel/plot/orbit_plots.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..c65171d 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -120,9 +120,14 @@ class MultipanelPlot(object):
 
         self.rawresid = self.post.likelihood.residuals()
 
+        # dvdt and curv are zero in the vector when they are not declared
+        vector = self.post.vector
+        dvdt = vector.vector[vector.indices['dvdt']][0]
+        curv = vector.vector[vector.indices['curv']][0]
+
         self.resid = (
-            self.rawresid + self.post.params['dvdt'].value*(self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value*(self.rvtimes-self.model.time_base)**2
+            self.rawresid + dvdt*(self.rvtimes-self.model.time_base)
+            + curv*(self.rvtimes-self.model.time_base)**2
         )
 
         if self.saveplot is not None:
@@ -166,12 +171,12 @@ class MultipanelPlot(object):
             self.mplttimes = self.rvmodt - self.epoch
 
         self.slope = (
-            self.post.params['dvdt'].value * (self.rvmodt-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvmodt-self.model.time_base)**2
+            dvdt * (self.rvmodt-self.model.time_base)
+            + curv * (self.rvmodt-self.model.time_base)**2
         )
         self.slope_low = (
-            self.post.params['dvdt'].value * (self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvtimes-self.model.time_base)**2
+            dvdt * (self.rvtimes-self.model.time_base)
+            + curv * (self.rvtimes-self.model.time_base)**2
         )
 
         # list for Axes objects
-- 
2.43.0


From 634b824096e8c84b740f296acd1fd4ce831fc25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 46/58] fix: GPMultipanelPlot added the GP mean to its orbit
 model, and scaled for data it did not plot

---
 radvel/plot/orbit_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index c65171d..c20e576 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -647,7 +647,7 @@ class GPMultipanelPlot(MultipanelPlot):
             ax.plot(self.mplttimes, self.orbit_model, 'b-', rasterized=False, lw=0.1)
 
         if not self.yscale_auto: 
-            scale = np.std(self.rawresid+self.rvmod)
+            scale = np.std(self.rawresid+orbit_model4data)
             ax.set_ylim(-self.yscale_sigma * scale, self.yscale_sigma * scale)
 
         ax.set_ylabel('RV [{ms:}]'.format(**plot.latex), weight='bold')
@@ -669,7 +669,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if self.subtract_orbit_model:
             orbit_model4data = np.zeros(self.rvmod.shape)
         else:
-            orbit_model4data = self.rvmod
+            orbit_model4data = self.rvmod.copy()
 
         ci = 0
         for like in self.like_list:
@@ -758,7 +758,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 if self.subtract_orbit_model:
                     orbit_model4data = np.zeros(self.rvmod.shape)
                 else:
-                    orbit_model4data = self.rvmod
+                    orbit_model4data = self.rvmod.copy()
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
-- 
2.43.0


From 69b5c65a388ce4a94b6d5cb6e4d0611e1930cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 47/58] fix: GPMultipanelPlot drew the orbit model it was asked
 to subtract

---
 radvel/plot/orbit_plots.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index c20e576..41c4302 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -644,7 +644,11 @@ class GPMultipanelPlot(MultipanelPlot):
                 ax.plot(xpred, gpmu+gp_orbit_model, 'b-', rasterized=False, lw=0.4)
         else:
             # plot orbit model
-            ax.plot(self.mplttimes, self.orbit_model, 'b-', rasterized=False, lw=0.1)
+            if self.subtract_orbit_model:
+                orbit_model = np.zeros(self.orbit_model.shape)
+            else:
+                orbit_model = self.orbit_model
+            ax.plot(self.mplttimes, orbit_model, 'b-', rasterized=False, lw=0.1)
 
         if not self.yscale_auto: 
             scale = np.std(self.rawresid+orbit_model4data)
-- 
2.43.0


From fe2173f563ef5f78d926b8ce6cb0874c31ab35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 48/58] fix: GPMultipanelPlot.plot_multipanel ignored nophase
 and returned nothing

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 41c4302..f243cc2 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -721,7 +721,7 @@ class GPMultipanelPlot(MultipanelPlot):
         """
 
         if not self.plot_likelihoods_separately:
-            super(GPMultipanelPlot, self).plot_multipanel()
+            return super(GPMultipanelPlot, self).plot_multipanel(nophase=nophase)
         else:
 
             if nophase:
-- 
2.43.0


From 2f91f8cd8e713d8dfe9f6980990d8d0dfdbc31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 49/58] fix: plots failed for telfmts without a color and for
 more than nine instruments

---
 radvel/plot/__init__.py    | 6 +++---
 radvel/plot/orbit_plots.py | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index c24e887..2545cec 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -116,12 +116,12 @@ def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
         telfmt = {}
 
         if t in telfmts:
-            telfmt = telfmts[t]
+            telfmt = dict(telfmts[t])
             if 'color' not in telfmt:
-                telfmt['color'] = default_colors[ci]
+                telfmt['color'] = default_colors[ci % len(default_colors)]
                 ci +=1
         elif t not in telfmts and t not in telfmts_default:
-            telfmt = dict(color=default_colors[ci])
+            telfmt = dict(color=default_colors[ci % len(default_colors)])
             ci +=1 
         else:
             telfmt = {}
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index f243cc2..966433a 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -628,9 +628,13 @@ class GPMultipanelPlot(MultipanelPlot):
             if like.suffix not in self.telfmts and like.suffix in plot.telfmts_default:
                 color = plot.telfmts_default[like.suffix]['color']
             if like.suffix in self.telfmts:
-                color = self.telfmts[like.suffix]['color']
+                if 'color' in self.telfmts[like.suffix]:
+                    color = self.telfmts[like.suffix]['color']
+                else:
+                    color = plot.default_colors[ci % len(plot.default_colors)]
+                    ci += 1
             if like.suffix not in self.telfmts and like.suffix not in plot.telfmts_default:
-                color = plot.default_colors[ci]
+                color = plot.default_colors[ci % len(plot.default_colors)]
                 ci += 1
 
             ax.fill_between(xpred, gpmu+gp_orbit_model-stddev, gpmu+gp_orbit_model+stddev, 
-- 
2.43.0


From 2f55ec976a1a0b26fb1945378841097f7e55e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 50/58] fix: GPMultipanelPlot with separate likelihoods ignored
 set_xlim and failed without planets

---
 radvel/plot/orbit_plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 966433a..f81b1e4 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -768,7 +768,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 else:
                     orbit_model4data = self.rvmod.copy()
 
-                self.plot_gp_like(like, orbit_model4data, ci)
+                ci = self.plot_gp_like(like, orbit_model4data, ci)
 
                 # plot data
                 plot.mtelplot(
@@ -777,7 +777,10 @@ class GPMultipanelPlot(MultipanelPlot):
                     self.post.likelihood.telvec, ax, telfmts=self.telfmts
                 )
 
-                ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)    
+                if self.set_xlim is not None:
+                    ax.set_xlim(self.set_xlim)
+                else:
+                    ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)
                 pl.setp(ax.get_xticklabels(), visible=False)
 
                 # legend
@@ -808,7 +811,7 @@ class GPMultipanelPlot(MultipanelPlot):
 
             # phase-folded plots
             if not nophase:
-                gs_phase = gridspec.GridSpec(self.phase_nrows, self.phase_ncols)
+                gs_phase = gridspec.GridSpec(max([1,self.phase_nrows]), max([1,self.phase_ncols]))
 
                 if self.phase_ncols == 1:
                     gs_phase.update(left=0.12, right=0.93,
-- 
2.43.0


From bdb89777e8360866fe9b4d7678d56058cb06c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 51/58] fix: GPMultipanelPlot plotted the calendar year as a
 velocity

---
 radvel/plot/orbit_plots.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index f81b1e4..adfe430 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -703,7 +703,6 @@ class GPMultipanelPlot(MultipanelPlot):
         axyrs = ax.twiny()
         xl = np.array(list(ax.get_xlim())) + self.epoch
         decimalyear = Time(xl, format='jd', scale='utc').decimalyear
-        axyrs.plot(decimalyear, decimalyear)
         axyrs.get_xaxis().get_major_formatter().set_useOffset(False)
         axyrs.set_xlim(*decimalyear)
         pl.locator_params(axis='x', nbins=5)
@@ -792,7 +791,6 @@ class GPMultipanelPlot(MultipanelPlot):
                     axyrs = ax.twiny()
                     xl = np.array(list(ax.get_xlim())) + self.epoch
                     decimalyear = Time(xl, format='jd', scale='utc').decimalyear
-                    axyrs.plot(decimalyear, decimalyear)
                     axyrs.get_xaxis().get_major_formatter().set_useOffset(False)
                     axyrs.set_xlim(*decimalyear)
                     axyrs.set_xlabel('Year', fontweight='bold')    
-- 
2.43.0


From 83b09e05447f777e2915215a06e52b63721daad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 52/58] fix: plot_multipanel without letter labels failed

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index adfe430..bd860f8 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -474,8 +474,8 @@ class MultipanelPlot(object):
 
         pl.sca(ax_rv)
         self.plot_timeseries()
+        pltletter = ord('a')
         if letter_labels:
-            pltletter = ord('a')
             plot.labelfig(pltletter)
             pltletter += 1
 
-- 
2.43.0


From ace877f9379ad1b1543f1c983d086b49b5902f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:16 +0000
Subject: [PATCH 53/58] fix: GPMultipanelPlot could not draw orbit and GP
 separately with the GP subtracted

---
 radvel/plot/orbit_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index bd860f8..220ee39 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -619,7 +619,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 xpred = xpred - self.epoch
 
             if self.subtract_gp_mean_model:
-                gpmu = 0.
+                gpmu = np.zeros(xpred.shape)
             else:
                 gp_mean4data, _ = like.predict(like.x)
                 indx = np.where(self.post.likelihood.telvec == like.suffix)
-- 
2.43.0


From 82c491455014274667f373a6ab969058ce97e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 54/58] fix: plots with set_xlim drew the model elsewhere for
 times with the epoch subtracted

---
 radvel/plot/orbit_plots.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index 220ee39..a5b8d8c 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -143,10 +143,19 @@ class MultipanelPlot(object):
         else:
             longp = max(self.post.likelihood.x) - min(self.post.likelihood.x)
 
+        # times from which the epoch was already subtracted are plotted as they are
+        if ((self.rvtimes - self.epoch) < -2.4e6).any():
+            self.xlim_offset = 0
+        elif self.epoch == 0:
+            self.xlim_offset = 2450000
+        else:
+            self.xlim_offset = self.epoch
+
         if self.set_xlim is not None:
             self.dt = self.set_xlim[1] - self.set_xlim[0]
             self.rvmodt = np.linspace(
-                (self.set_xlim[0]+self.epoch) - 0.05 * self.dt, (self.set_xlim[1]+self.epoch) + 0.05 * self.dt + longp,
+                (self.set_xlim[0]+self.xlim_offset) - 0.05 * self.dt,
+                (self.set_xlim[1]+self.xlim_offset) + 0.05 * self.dt + longp,
                 int(resolution)
             )
         else:
@@ -600,7 +609,9 @@ class GPMultipanelPlot(MultipanelPlot):
         if isinstance(like, radvel.likelihood.GPLikelihood):
 
             if self.set_xlim is not None:
-                xpred = np.linspace(self.set_xlim[0]+self.epoch, self.set_xlim[1]+self.epoch, num=int(3e3))
+                xpred = np.linspace(
+                    self.set_xlim[0]+self.xlim_offset, self.set_xlim[1]+self.xlim_offset, num=int(3e3)
+                )
             else:
                 xpred = np.linspace(np.min(like.x), np.max(like.x), num=int(3e3))
 
-- 
2.43.0


From d3b01e9550db126be56188eb80ae4e705c9c95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:55 +0000
Subject: [PATCH 55/58] fix: masses of derived tables and plots were 0.12% off
 in Jupiter masses

---
 radvel/plot/mcmc_plots.py  | 3 ++-
 radvel/plot/orbit_plots.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 5cc004d..d17e8b7 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -3,6 +3,7 @@ import corner
 from matplotlib.backends.backend_pdf import PdfPages
 from matplotlib import pyplot as pl
 from matplotlib import rcParams
+from astropy import constants as c
 
 from radvel import plot
 
@@ -211,7 +212,7 @@ class DerivedPlot(object):
                     unit = "M$_{\\oplus}$"
                     if np.median(self.chains[label]) > 100:
                         unit = "M$_{\\rm Jup}$"
-                        self.chains[label] *= 0.00315
+                        self.chains[label] *= (c.M_earth / c.M_jup).value
                     elif np.median(self.chains[label]) > 100:
                         unit = "M$_{\\odot}$"
                         self.chains[label] *= 0.000954265748
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5b8d8c..52f40fa 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -6,6 +6,7 @@ from matplotlib import rcParams, gridspec
 from matplotlib import pyplot as pl
 from matplotlib.ticker import MaxNLocator
 from astropy.time import Time
+from astropy import constants as c
 import copy
 
 import radvel
@@ -398,7 +399,7 @@ class MultipanelPlot(object):
 
                         unit = units[index]
                         if unit == "M$_{\\rm Jup}$":
-                            conversion_fac = 0.00315
+                            conversion_fac = (c.M_earth / c.M_jup).value
                         elif unit == "M$_{\\odot}$":
                             conversion_fac = 0.000954265748
                         else:
-- 
2.43.0


From c5884e7ce06f5ade8a9dcdf6013f5ff637976eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:01 +0000
Subject: [PATCH 56/58] fix: labels of GP hyperparameters failed for instrument
 names ending in a digit

---
 radvel/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/model.py b/radvel/model.py
index 1ff2b1e..717aabb 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -146,7 +146,7 @@ should have only integers as keys."""
         for k in param_list:
             n = k[-1]
             p = k[:-1]
-            if n.isdigit() and (not 'gamma' in p and not 'jit' in p):
+            if n.isdigit() and (not 'gamma' in p and not 'jit' in p and not k.startswith('gp_')):
                 tex_labels[k] = self._planet_texlabel(p, n)
             elif k in texdict.keys():
                 tex_labels[k] = "$%s$" % texdict[k]
-- 
2.43.0


From d390a551c6ce890b5bbd3cde5a699c6165b4f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 57/58] fix: report showed the parameters of another instrument
 for names like 'k' and 'k1'

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..126ce1b 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -246,7 +246,7 @@ class TexTable(RadvelReport):
 
         for n in range(1, nloop):
             for p in basis.split():  # loop over variables
-                par = p+str(n)
+                par = p if dontloop else p+str(n)
 
                 # get unit for parameter
                 unit = units.get(p, '')
-- 
2.43.0


From 13740c1bb10064874eae2c48b2fe04b4058a3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:37 +0000
Subject: [PATCH 58/58] fix: an error in mcmc left the terminal in the mode of
 the progress display

---
 radvel/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 9f05650..3d0ec15 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -487,6 +487,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         return df
 
     except KeyboardInterrupt:
+        pass
+
+    finally:
         _closescr()
 
 
-- 
2.43.0

