From 2a5eadcbab3a3f482d5e528f6a63082d43742746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 01/40] fix: merge binary log segments in chain order, whatever
 their size

---
 pymcmcstat/chain/ChainProcessing.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..86e2c5e 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -261,7 +261,8 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        # data sets, in the order in which they were logged
+        ds = sorted(hf.keys(), key=_log_segment_start)
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
@@ -277,7 +278,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = b + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
@@ -290,6 +291,16 @@ def read_in_bin_file(filename):
     return out
 
 
+def _log_segment_start(name):
+    '''
+    Chain index at which a logged segment starts - data set name is "nsimu_<start>_<end>"
+    '''
+    try:
+        return int(name.split('_')[1])
+    except (IndexError, ValueError):
+        return 0
+
+
 def read_in_txt_file(filename):
     '''
     Read in information from file containing text data.
-- 
2.43.0


From 4ba85a37bc9802bc6b4308569855d08a4ebc06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:21 +0000
Subject: [PATCH 02/40] fix: text logs load as [nsimu x npar] arrays, like the
 binary logs

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 86e2c5e..aa7bb33 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -315,7 +315,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From 9168e7b4e91ad7eb3800321be6023c231726dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 03/40] fix: ignore a partially written last row when reading
 text logs

---
 pymcmcstat/chain/ChainProcessing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index aa7bb33..b80bb12 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -315,7 +315,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename, ndmin=2)
+        out = np.loadtxt(_complete_lines(filename), ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
@@ -326,6 +326,16 @@ def read_in_txt_file(filename):
     return out
 
 
+def _complete_lines(filename):
+    '''
+    Lines of a text log, without a last line that was cut short (e.g., simulation ended while writing)
+    '''
+    if not os.path.exists(filename):
+        return filename
+    with open(filename, 'r') as file:
+        return [line for line in file if line.endswith('\n')]
+
+
 def _create_path_with_extension_for_all_logs(options, extension='h5'):
     chainfile = _create_path_with_extension(options.savedir, options.chainfile, extension)
     s2chainfile = _create_path_with_extension(options.savedir, options.s2chainfile, extension)
-- 
2.43.0


From b53305a2c28e64a68bbe58a3c146991d309296c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:53 +0000
Subject: [PATCH 04/40] fix: load saved results with chains in the json files,
 or with several parameters in the logs

---
 pymcmcstat/ParallelMCMC.py          | 12 ++++++------
 pymcmcstat/chain/ChainProcessing.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..c02e620 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -399,13 +399,13 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index b80bb12..a56b1b1 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -87,7 +87,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -123,13 +123,13 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From 92ab1f18f84c33a3d2666b18b72dfd53629e2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 05/40] fix: load parallel chains in chain order for ten or
 more chains

---
 pymcmcstat/chain/ChainProcessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index a56b1b1..2a1982c 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -9,6 +9,7 @@ import json
 import h5py
 import numpy as np
 import os
+import re
 import warnings
 
 
@@ -242,7 +243,8 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    # sort elements - by chain number, i.e., chain_2 before chain_10
+    chainfolders.sort(key=lambda cf: [int(xi) if xi.isdigit() else xi for xi in re.split('([0-9]+)', cf)])
     return chainfolders
 
 
-- 
2.43.0


From 5c479f3ef9a909bad691be465923faa34dcf036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 06/40] fix: load the json file that was asked for, whatever
 else is in the directory

---
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 2a1982c..e9ac7aa 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -69,11 +69,11 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
-    for item in items:
-        if item.endswith('.json'):
-            json_file = item
-            break
+    if json_file is None:
+        for item in sorted(os.listdir(savedir)):
+            if item.endswith('.json'):
+                json_file = item
+                break
     if json_file is not None:
         results = load_json_object(savedir + os.sep + json_file)
     else:
-- 
2.43.0


From d03f8bfc221e5b82c1aab481094fab8ff1255a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:37 +0000
Subject: [PATCH 07/40] fix: list a segment in the log index only after it has
 been saved

---
 pymcmcstat/MCMC.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..0aa9a8a 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -470,27 +470,28 @@ class MCMC:
         if self.simulation_options.save_to_bin is True:
             savedir = self.simulation_options.savedir
             ChainProcessing._check_directory(savedir)
-            if append_to_log is True:
-                binlogfile = os.path.join(savedir, 'binlogfile.txt')
-                binstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
-                ChainProcessing._add_to_log(binlogfile, str('{}\t{}\t{}\n'.format(binstr, start, end-1)))
-
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
             else:
                 self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
+            # log segment once it has been saved
+            if append_to_log is True:
+                binlogfile = os.path.join(savedir, 'binlogfile.txt')
+                binstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
+                ChainProcessing._add_to_log(binlogfile, str('{}\t{}\t{}\n'.format(binstr, start, end-1)))
 
         if self.simulation_options.save_to_txt is True:
             savedir = self.simulation_options.savedir
             ChainProcessing._check_directory(savedir)
-            if append_to_log is True:
-                txtlogfile = os.path.join(savedir, 'txtlogfile.txt')
-                txtstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
-                ChainProcessing._add_to_log(txtlogfile, str('{}\t{}\t{}\n'.format(txtstr, start, end-1)))
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='txt')
             else:
                 self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt')
+            # log segment once it has been saved
+            if append_to_log is True:
+                txtlogfile = os.path.join(savedir, 'txtlogfile.txt')
+                txtstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
+                ChainProcessing._add_to_log(txtlogfile, str('{}\t{}\t{}\n'.format(txtstr, start, end-1)))
 
         # reset counter
         savecount = 0
-- 
2.43.0


From 26874e96f0c7774e2d6b3d8ce9d4cf827000353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:58 +0000
Subject: [PATCH 08/40] fix: a failed results export no longer destroys the
 previous results file

---
 pymcmcstat/structures/ResultsStructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 7c1ae9e..f22c741 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -8,6 +8,7 @@ Created on Wed Jan 17 09:18:19 2018
 
 # import required packages
 import json
+import os
 import numpy as np
 from ..utilities.NumpyEncoder import NumpyEncoder
 from ..utilities.general import removekey
@@ -113,8 +114,11 @@ class ResultsStructure:
             * **results** (:py:class:`dict`): Object to save.
             * **filename** (:py:class:`str`): Write object into file with this name.
         '''
-        with open(filename, 'w') as out:
+        # existing file is replaced only once the new one is complete
+        tmpfile = str('{}.tmp'.format(filename))
+        with open(tmpfile, 'w') as out:
             json.dump(results, out, sort_keys=True, indent=4, cls=NumpyEncoder)
+        os.replace(tmpfile, filename)
 
     @classmethod
     def load_json_object(cls, filename):
-- 
2.43.0


From c42b44e8b05662e7d70dfc8b015b109b3c12e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 09/40] fix: export results that contain numpy scalars

---
 pymcmcstat/utilities/NumpyEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/utilities/NumpyEncoder.py b/pymcmcstat/utilities/NumpyEncoder.py
index dac317e..68d55f6 100644
--- a/pymcmcstat/utilities/NumpyEncoder.py
+++ b/pymcmcstat/utilities/NumpyEncoder.py
@@ -15,6 +15,6 @@ class NumpyEncoder(json.JSONEncoder):
     Encoder used for storing numpy arrays in json files.
     '''
     def default(self, obj):
-        if isinstance(obj, np.ndarray):
+        if isinstance(obj, (np.ndarray, np.generic)):
             return obj.tolist()
         return json.JSONEncoder.default(self, obj)
-- 
2.43.0


From f3b7d13917955105cbe26a2ad6fe87f5b1ae89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 10/40] fix: error variance updates no longer overwrite S20 or
 the user's sigma2, nor truncate it to integers

---
 pymcmcstat/settings/ModelSettings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..e42d7a9 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -181,6 +181,9 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
+        else:
+            # copy - error variance is updated in place during the simulation
+            x = np.array(x, dtype=float)
         return x
 
     @classmethod
-- 
2.43.0


From 0b548ef9441031b19642ab4c8fdf5bab7059d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 11/40] fix: initial error variance defaults to S20, as
 documented

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e42d7a9..0fdb139 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -106,7 +106,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not(np.isnan(self.S20)).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From 0c1a47ce98c18c1a481c80b3da11088dc3792cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:20 +0000
Subject: [PATCH 12/40] fix: a simulation with several data sets and a single
 sum-of-squares can be run again

---
 pymcmcstat/settings/ModelSettings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 0fdb139..6f4a908 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -119,7 +119,8 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            # total number is what the settings hold after a simulation with a single sum-of-squares
+            if np.all(dsN == udN[0]) or udN[0] == np.sum(dsN):
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From 2908d764853aa2864a4cb0684c61a00559716657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 13/40] fix: running a simulation again does not turn on error
 variance updating

---
 pymcmcstat/settings/ModelSettings.py      | 2 ++
 pymcmcstat/settings/SimulationOptions.py  | 2 +-
 pymcmcstat/structures/ResultsStructure.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 6f4a908..feb8fc1 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._default_N0 = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._default_N0 = True  # i.e., not defined by user
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..93987b3 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and model._default_N0 is False:
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index f22c741..8d0cb13 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -280,7 +280,7 @@ class ResultsStructure:
         mod = model.__dict__
         # define list of keywords to NOT add to results structure
         do_not_save_these_keys = ['sos_function', 'prior_function', 'model_function',
-                                  'prior_update_function', 'prior_pars']
+                                  'prior_update_function', 'prior_pars', '_default_N0']
         for keyii in do_not_save_these_keys:
             mod = removekey(mod, keyii)
         # must convert 'model' object to a dictionary
-- 
2.43.0


From 72acb29c396b6b0690d67baff5c6ed2793ee892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 14/40] fix: delayed rejection with adaptation during burn-in

---
 pymcmcstat/samplers/Adaptation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..c41440b 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,8 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
+            # update delayed rejection proposals for scaled R
+            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
-- 
2.43.0


From 264c2af6f8f51cf90de60f7569a2a4f1ca35375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 15/40] fix: adapting in a continued simulation uses each chain
 element once

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index c41440b..75cc5fa 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -74,7 +74,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From b90edb256f5e3dc98fd9a116865c77440a9b7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 16/40] fix: restart from json file when some parameters are
 not sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 0aa9a8a..9ab2276 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # use covariance with respect to all parameters if available
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From 9e35753511d77b88accb3349b43dc9db39546193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:46 +0000
Subject: [PATCH 17/40] fix: logs of a continued simulation hold each new chain
 element once

---
 pymcmcstat/MCMC.py | 65 +++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 9ab2276..e327d9f 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -244,16 +244,12 @@ class MCMC:
         self.__chain[chainind, :] = self.__initial_set.theta
         self.__sschain[chainind, :] = self.__initial_set.ss
 
-        self.__chains = []
-        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
-        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
-
         if updatesigma:
             self.__s2chain = np.zeros([nsimu, nsos])
             self.__s2chain[chainind, :] = sigma2
-            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
         else:
             self.__s2chain = None
+        self.__collect_chains_to_log()
 
     # --------------------------------------------------------
     def __expand_chains(self, nsimu, npar, nsos, updatesigma):
@@ -278,6 +274,18 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        self.__collect_chains_to_log()
+
+    # --------------------------------------------------------
+    def __collect_chains_to_log(self):
+        '''
+        Collect the chains that are written to the log files
+        '''
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if self.__s2chain is not None:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -290,6 +298,10 @@ class MCMC:
         iiprint = 0  # print counter
         savecount = 0  # save counter
         lastbin = 0  # initialize bin counter
+        firstindex = self.__chain_index  # chain element at which this simulation starts
+        if firstindex > 0:  # continued simulation: earlier chain elements are already logged
+            savecount = -1
+            lastbin = firstindex + 1
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
@@ -376,14 +388,15 @@ class MCMC:
 
             # SAVE TO LOG FILE
             if savecount == self.simulation_options.savesize:
+                start = self.__chain_index - self.simulation_options.savesize
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=start,
+                        end=self.__chain_index)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=start,
+                        end=self.__chain_index,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -391,22 +404,28 @@ class MCMC:
                     if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
                         self.__save_to_log_file(
                                 chains=cs.chains,
-                                start=isimu - self.simulation_options.savesize,
-                                end=isimu,
-                                append_to_log=False)
+                                start=start,
+                                end=self.__chain_index,
+                                append_to_log=False,
+                                offset=firstindex)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
+        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
         self.__save_to_log_file(
                 chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
                 start=lastbin,
-                end=isimu,
+                end=self.__chain_index,
                 append_to_log=False,
                 covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(
+                        chains=cs.chains,
+                        start=lastbin,
+                        end=self.__chain_index + 1,
+                        append_to_log=False,
+                        offset=firstindex)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
@@ -456,13 +475,14 @@ class MCMC:
         self.simulation_results.add_sschain(sschain=self.__sschain)
 
     # ------------------------------------------------
-    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False):
+    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False, offset=0):
         '''
         Save to log files
 
         Args:
             * **start** (:py:class:`int`): Start index of chain block to save
             * **end** (:py:class:`int`): End index of chain block to save
+            * **offset** (:py:class:`int`): Chain element stored in the first row of `chains`
 
         Returns:
             * **savecount** (:py:class:`int`): Reset save counter
@@ -474,7 +494,7 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
+                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5', offset=offset)
             # log segment once it has been saved
             if append_to_log is True:
                 binlogfile = os.path.join(savedir, 'binlogfile.txt')
@@ -487,7 +507,7 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='txt')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt')
+                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt', offset=offset)
             # log segment once it has been saved
             if append_to_log is True:
                 txtlogfile = os.path.join(savedir, 'txtlogfile.txt')
@@ -500,7 +520,7 @@ class MCMC:
         return savecount, lastbin
 
     # --------------------------------------------------------
-    def __save_chains(self, chains, savedir, start, end, extension):
+    def __save_chains(self, chains, savedir, start, end, extension, offset=0):
         '''
         Save custom chain segment
 
@@ -522,9 +542,12 @@ class MCMC:
             if extension.lower() == 'h5':
                 # define set name based in start/end
                 datasetname = str('{}_{}_{}'.format('nsimu', start, end-1))
-                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_bin_file(
+                        chainfile,
+                        datasetname=datasetname,
+                        mtx=chain['mtx'][start-offset:end-offset, :])
             else:
-                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start-offset:end-offset, :])
 
     # --------------------------------------------------------
     def __save_covmtx_chain(self, chain, start, end, extension):
-- 
2.43.0


From 692bb0d7fcdc65b52f891ce27955772a24863d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:03 +0000
Subject: [PATCH 18/40] fix: continuing after an interrupted simulation starts
 from the last completed results

---
 pymcmcstat/MCMC.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index e327d9f..35109b9 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -142,6 +142,7 @@ class MCMC:
         '''
         if use_previous_results is True:
             if self._mcmc_status is True:
+                self.__restore_chains(self.simulation_results.results)
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
                 self.__expand_chains(
@@ -251,6 +252,19 @@ class MCMC:
             self.__s2chain = None
         self.__collect_chains_to_log()
 
+    # --------------------------------------------------------
+    def __restore_chains(self, results):
+        '''
+        Restore chains from previous results, for example after an interrupted simulation
+
+        Args:
+            * **results** (:py:class:`dict`): Results of the last completed simulation
+        '''
+        self.__chain = results['chain']
+        self.__sschain = results['sschain']
+        self.__s2chain = results['s2chain']
+        self.__chain_index = self.__chain.shape[0] - 1
+
     # --------------------------------------------------------
     def __expand_chains(self, nsimu, npar, nsos, updatesigma):
         '''
-- 
2.43.0


From 05fec54a9dc528583f557ce03de671797ecedf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:02 +0000
Subject: [PATCH 19/40] fix: progress bar no longer counts past the number of
 simulations

---
 pymcmcstat/utilities/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/utilities/progressbar.py b/pymcmcstat/utilities/progressbar.py
index 17274ef..752175a 100644
--- a/pymcmcstat/utilities/progressbar.py
+++ b/pymcmcstat/utilities/progressbar.py
@@ -22,7 +22,7 @@ class ProgressBar(object):
         i = i + 1
 
         if elapsed - self.last > self.animation_interval:
-            self.animate(i + 1, elapsed)
+            self.animate(i, elapsed)
             self.last = elapsed
         elif i == self.iterations:
             self.animate(i, elapsed)
-- 
2.43.0


From 76a3668f6eb90f4a5840090298ec50636454340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:29 +0000
Subject: [PATCH 20/40] fix: robust adaptive Metropolis adapts to the
 acceptance probability, not its logarithm

---
 pymcmcstat/samplers/Metropolis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/samplers/Metropolis.py b/pymcmcstat/samplers/Metropolis.py
index 18abfb8..f794690 100644
--- a/pymcmcstat/samplers/Metropolis.py
+++ b/pymcmcstat/samplers/Metropolis.py
@@ -83,8 +83,8 @@ class Metropolis:
                     logprior=-0.5*oldprior)
             # make acceptance decision
             accept = log_posterior_ratio_acceptance_test(alpha)
-            # store parameter sets in objects
-            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=alpha)
+            # store parameter sets in objects (alpha is posterior ratio, not its logarithm)
+            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=np.exp(alpha))
         return accept, newset, outbound, npar_sample_from_normal
 
     # --------------------------------------------------------
-- 
2.43.0


From 4a244bce62c46254cf55dfb9d6b8c3f3886a632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:56 +0000
Subject: [PATCH 21/40] fix: parallel chains no longer share the same random
 numbers

---
 pymcmcstat/ParallelMCMC.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c02e620..ee2d5cf 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -102,8 +102,10 @@ class ParallelMCMC:
             Parallel simulation run time: 16.15234899520874 sec
         '''
         start = time.time()
+        # each chain has its own random numbers, whichever worker it runs in
+        seeds = np.random.randint(2**32, size=self.num_chain, dtype=np.uint32)
         mcpool = Pool(processes=self.num_cores)  # depends on available cores
-        res = mcpool.map(run_serial_simulation, self.parmc)
+        res = mcpool.map(_run_seeded_simulation, list(zip(seeds, self.parmc)))
         mcpool.close()  # not optimal! but easy
         mcpool.join()
         end = time.time()
@@ -353,6 +355,13 @@ def run_serial_simulation(mcstat):
     return mcstat.simulation_results
 
 
+# -------------------------
+def _run_seeded_simulation(seed_and_mcstat):
+    seed, mcstat = seed_and_mcstat
+    np.random.seed(seed)
+    return run_serial_simulation(mcstat)
+
+
 # -------------------------
 def assign_number_of_cores(num_cores=1):
     '''
-- 
2.43.0


From 2638e83dcfafe8a232dd42e6d5bb9a4e89b40850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 22/40] fix: an invalid set up in a parallel chain is reported
 instead of hanging the simulation

---
 pymcmcstat/ParallelMCMC.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index ee2d5cf..f198dc0 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -359,7 +359,11 @@ def run_serial_simulation(mcstat):
 def _run_seeded_simulation(seed_and_mcstat):
     seed, mcstat = seed_and_mcstat
     np.random.seed(seed)
-    return run_serial_simulation(mcstat)
+    try:
+        return run_serial_simulation(mcstat)
+    except SystemExit as ex:
+        # would end the worker process and leave the parallel simulation waiting for its result
+        raise RuntimeError(str(ex))
 
 
 # -------------------------
-- 
2.43.0


From 164519c2ace2babfbdd0836e28c379061676f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:23 +0000
Subject: [PATCH 23/40] fix: intervals are calculated at the randomly chosen
 chain elements

---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..6e190f0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From ced503df8d518d7b145f29abb319144027c6cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:28 +0000
Subject: [PATCH 24/40] fix: calculating intervals leaves the simulation
 results as they are

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 pymcmcstat/propagation.py                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..5c3e998 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -469,7 +469,7 @@ class PredictionIntervals:
             * **ysave** (:class:`~numpy.ndarray`): Model responses.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)
         ysave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
             # progress bar
@@ -507,7 +507,7 @@ class PredictionIntervals:
             * **osave** (:class:`~numpy.ndarray`): Model responses with observation errors.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)
         ysave = np.zeros([nsample, nrow, ncol])
         osave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6e190f0..8e27e96 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
-- 
2.43.0


From bed4d30bc2cd7e33537ac4b2544bb7a222a5beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:37 +0000
Subject: [PATCH 25/40] fix: displaying settings of a sampler without delayed
 rejection

With verbosity of two or more, run_simulation ended in an AttributeError
unless the method used delayed rejection.
---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..6642703 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -197,5 +197,5 @@ class CovarianceProcedures:
             print_these = ['qcov', 'R', 'RDR', 'invR', 'last_index_since_adaptation', 'covchain']
         print('covariance:')
         for ptii in print_these:
-            print('\t{} = {}'.format(ptii, getattr(self, str('_{}'.format(ptii)))))
+            print('\t{} = {}'.format(ptii, getattr(self, str('_{}'.format(ptii)), None)))
         return print_these
-- 
2.43.0


From 52c1569745e85fa0d7b71a24696a12c9f30a44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 26/40] fix: continuing after an interrupted simulation starts
 from the last error variance

The first step of the continued simulation used the error variance drawn by
the interrupted one instead of the last element of the chain.
---
 pymcmcstat/MCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 35109b9..9828bef 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -264,6 +264,8 @@ class MCMC:
         self.__sschain = results['sschain']
         self.__s2chain = results['s2chain']
         self.__chain_index = self.__chain.shape[0] - 1
+        if self.simulation_options.updatesigma and self.__s2chain is not None:
+            self.model_settings.sigma2 = np.array(self.__s2chain[-1, :])
 
     # --------------------------------------------------------
     def __expand_chains(self, nsimu, npar, nsos, updatesigma):
-- 
2.43.0


From 7ef7ab8dc36176047836f81e18fe1774039abe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:08 +0000
Subject: [PATCH 27/40] fix: logs of a continued simulation of a single element

A simulation of one element, continued, logged that element twice.
---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 9828bef..4c97775 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -140,6 +140,7 @@ class MCMC:
         Args:
             * **use_previous_results** (:py:class:`bool`): Flag to indicate whether simulation is being restarted.
         '''
+        self.__continued = use_previous_results is True
         if use_previous_results is True:
             if self._mcmc_status is True:
                 self.__restore_chains(self.simulation_results.results)
@@ -315,7 +316,7 @@ class MCMC:
         savecount = 0  # save counter
         lastbin = 0  # initialize bin counter
         firstindex = self.__chain_index  # chain element at which this simulation starts
-        if firstindex > 0:  # continued simulation: earlier chain elements are already logged
+        if self.__continued:  # continued simulation: earlier chain elements are already logged
             savecount = -1
             lastbin = firstindex + 1
         nsimu = self.simulation_options.nsimu
-- 
2.43.0


From f59f4c46dde06a8d2efc94deef9e6117e6e5f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:28 +0000
Subject: [PATCH 28/40] fix: parameters which are not sampled keep their value
 in parallel chains

---
 pymcmcstat/ParallelMCMC.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index f198dc0..68d431a 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,11 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        if initial_values is None:
+            # parameters which are not sampled keep their value
+            for jj, par in enumerate(parameters.parameters):
+                if par['sample'] == 0:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 7ab716f4365e0b5dfbb86853c5664c9edd786a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:31 +0000
Subject: [PATCH 29/40] fix: intervals of loaded results without error variance
 chain

---
 pymcmcstat/plotting/PredictionIntervals.py | 3 +++
 pymcmcstat/propagation.py                  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 5c3e998..d3119c8 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -111,6 +111,9 @@ class PredictionIntervals:
         # assign required features from the results structure
         self.__chain = results['chain'][burnin:, :]
         self.__s2chain = results['s2chain']
+        if self.__s2chain is not None and len(self.__s2chain) == 0:
+            # loaded results of a simulation without observation error chain
+            self.__s2chain = None
         if self.__s2chain is not None:
             self.__s2chain = self.__s2chain[burnin:, :]
         self.__parind = results['parind']
diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 8e27e96..1c56abf 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -455,7 +455,8 @@ def check_s2chain(s2chain, nsimu):
     Returns:
         * **s2chain** (:class:`~numpy.ndarray` or `None`)
     '''
-    if s2chain is None:
+    if s2chain is None or (isinstance(s2chain, list) and len(s2chain) == 0):
+        # the latter in loaded results of a simulation without error variance
         return None
     else:
         if isinstance(s2chain, float):
-- 
2.43.0


From b7187913a31935388ff9417a5b96c41f330f186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 30/40] fix: keep the number of data points given to
 add_data_set

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..04b46e6 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)  # number of data points given by user
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From cf89f331191dd87c3d50e588b8aafc4e3a4109fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:22 +0000
Subject: [PATCH 31/40] fix: setting up a parallel simulation keeps the random
 state of the main process

---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 68d431a..dc38729 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -68,6 +68,7 @@ class ParallelMCMC:
         self.__parallel_dir = parallel_dir
         # replicate features of mcstat object num_chain times
         self.parmc = []
+        rng_state = np.random.get_state()  # creating an MCMC object seeds the random number generator
         for ii in range(self.num_chain):
             self.parmc.append(MCMC())
             # replicate data
@@ -86,6 +87,7 @@ class ParallelMCMC:
             self.parmc[ii].parameters = copy.deepcopy(parameters)
             for jj in range(npar):
                 self.parmc[ii].parameters.parameters[jj]['theta0'] = self.initial_values[ii, jj]
+        np.random.set_state(rng_state)
 
     def run_parallel_simulation(self):
         '''
-- 
2.43.0


From dd66fffc2ca176a79e4f0f741d56d5e50ce6670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:22 +0000
Subject: [PATCH 32/40] fix: no adaptation after lastadapt

---
 pymcmcstat/MCMC.py                        | 3 ++-
 pymcmcstat/settings/SimulationOptions.py  | 5 ++++-
 pymcmcstat/structures/ResultsStructure.py | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 4c97775..08e8a38 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -372,7 +372,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index 93987b3..204f349 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -23,6 +23,7 @@ class SimulationOptions:
         # self.options = BaseSimulationOptions()
         self.description = 'simulation_options'
         self.__options_set = False
+        self.__default_lastadapt = None
 
     def define_simulation_options(self, nsimu=int(1e4), adaptint=None, ntry=None, method='dram',
                                   printint=None, adaptend=0, lastadapt=0, burnintime=0,
@@ -126,6 +127,7 @@ class SimulationOptions:
         self.printint = printint  # print interval
         self.adaptend = adaptend   # last adapt
         self.lastadapt = lastadapt  # last adapt
+        self.__default_lastadapt = None  # set when lastadapt follows nsimu
         self.burnintime = burnintime
         self.waitbar = bool(waitbar)  # use waitbar
         self.debug = debug  # show some debug information
@@ -189,8 +191,9 @@ class SimulationOptions:
             self.dodram = 1
         else:
             self.dodram = 0
-        if self.lastadapt < 1:
+        if self.lastadapt < 1 or self.lastadapt == self.__default_lastadapt:
             self.lastadapt = self.nsimu
+            self.__default_lastadapt = self.nsimu
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 8d0cb13..bf815b3 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -263,7 +263,8 @@ class ResultsStructure:
         # define list of keywords to NOT add to results structure
         do_not_save_these_keys = ['doram', 'waitbar', 'debug', 'dodram', 'maxmem',
                                   'verbosity', 'RDR', 'stats', 'initqcovn', 'drscale',
-                                  'maxiter', '_SimulationOptions__options_set', 'skip']
+                                  'maxiter', '_SimulationOptions__options_set',
+                                  '_SimulationOptions__default_lastadapt', 'skip']
         for keyii in do_not_save_these_keys:
             opt = removekey(opt, keyii)
         # must convert 'options' object to a dictionary
-- 
2.43.0


From d081232a2244e44bb43f73260518d214a1cdef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:24 +0000
Subject: [PATCH 33/40] fix: initial values of parallel chains are checked
 against the parameters' own limits

---
 pymcmcstat/ParallelMCMC.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index dc38729..90e8992 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,6 +47,10 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
+        if initial_values is not None:
+            # finite limits are only required for generating initial values
+            low_lim = np.array([par['minimum'] for par in parameters.parameters])
+            upp_lim = np.array([par['maximum'] for par in parameters.parameters])
         options = check_options_output(options)
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
-- 
2.43.0


From fbe859913cf7862b5022d74986c714855a1fa38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:16 +0000
Subject: [PATCH 34/40] fix: data given as lists have one observation per
 element

---
 pymcmcstat/settings/DataStructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 04b46e6..d8a5845 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -111,7 +111,9 @@ class DataStructure:
         Returns:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
-        if isinstance(xy, np.ndarray) is False:
+        if isinstance(xy, list):
+            xy = np.array(xy)  # each element is an observation
+        elif isinstance(xy, np.ndarray) is False:
             xy = np.array([xy])
         return xy
 
-- 
2.43.0


From eb4ed911f625d9d411d634c4afc245364575202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:45 +0000
Subject: [PATCH 35/40] fix: functions of the user cannot alter the chain
 through the arrays they are given or return

---
 pymcmcstat/procedures/PriorFunction.py |  2 +-
 pymcmcstat/procedures/SumOfSquares.py  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/procedures/PriorFunction.py b/pymcmcstat/procedures/PriorFunction.py
index 0ac7fb9..d5eaaac 100644
--- a/pymcmcstat/procedures/PriorFunction.py
+++ b/pymcmcstat/procedures/PriorFunction.py
@@ -58,4 +58,4 @@ class PriorFunction:
         Args:
             * **theta** (:class:`~numpy.ndarray`): Current parameter values.
         '''
-        return self.priorfun(theta, self.mu, self.sigma)
+        return self.priorfun(np.array(theta), np.array(self.mu), np.array(self.sigma))
diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index c949368..6295928 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -54,18 +54,18 @@ class SumOfSquares:
         self.value[self.parind] = theta
         if self.sos_style == 1:
             try:
-                ss = self.sos_function(self.value, self.data, custom=custom)
+                ss = self.sos_function(self.value.copy(), self.data, custom=custom)
             except TypeError:
-                ss = self.sos_function(self.value, self.data)
+                ss = self.sos_function(self.value.copy(), self.data)
         elif self.sos_style == 4:
             ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
         else:
-            ss = self.sos_function(self.value, self.data, self.local)
+            ss = self.sos_function(self.value.copy(), self.data, self.local)
 
         # make sure sos is a numpy array
         if not isinstance(ss, np.ndarray):
             ss = np.array([ss])
-        return ss
+        return ss.copy()
 
     @classmethod
     def mcmc_sos_function(cls, theta, data, nbatch, model_function):
@@ -99,7 +99,7 @@ class SumOfSquares:
             ydata = data.ydata[ibatch]
             weight = data.weight[ibatch]
             # evaluate model
-            ymodel = model_function(xdata, theta)
+            ymodel = model_function(xdata, np.array(theta))
             # calculate sum-of-squares error
             ss[ibatch] += sum(weight*(ydata-ymodel)**2)
         return ss
-- 
2.43.0


From 524b1617cfd70950ddc42eaaf467626fb6052063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:58 +0000
Subject: [PATCH 36/40] fix: delayed rejection with more than one try whichever
 method was chosen

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 6642703..6d5a7e6 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -56,7 +56,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.ntry > 1 or options.method == 'dram' or options.method == 'dr':
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From 809139c55b6716dac45eb1157b95b91052a7232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:58 +0000
Subject: [PATCH 37/40] fix: proposal covariance and delayed rejection scales
 given as whole numbers

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 pymcmcstat/settings/SimulationOptions.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 6d5a7e6..7c16e16 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -133,7 +133,7 @@ class CovarianceProcedures:
             qcov[qcov == 0] = 1.0  # if initial value was zero, use 1 as stdev
             qcov = np.diagflat(qcov)  # create covariance matrix
 
-        self._qcov = np.atleast_2d(qcov[:])
+        self._qcov = np.atleast_2d(np.array(qcov, dtype=float))
         self._qcov_original = self._qcov.copy()
 
     def __check_adascale(self, adascale, npar):
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index 204f349..a59c6d2 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -140,7 +140,7 @@ class SimulationOptions:
         self.alphatarget = alphatarget  # acceptance ratio target
         self.etaparam = etaparam  #
         self.stats = stats  # convergence statistics
-        self.drscale = drscale
+        self.drscale = np.array(drscale, dtype=float)
         self.skip = skip
         datestr = datetime.now().strftime('%Y%m%d_%H%M%S')
         self.datestr = datestr
-- 
2.43.0


From 6f149706591732e6607967bdb9aa47dbcc423d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:14 +0000
Subject: [PATCH 38/40] fix: parallel chains keep the custom samplers

---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 90e8992..8f68e41 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -87,6 +87,8 @@ class ParallelMCMC:
             self.parmc[ii].simulation_options.json_restart_file = check_for_restart_file(
                     options.json_restart_file,
                     chain_dir)
+            # replicate custom samplers
+            self.parmc[ii].custom_samplers = copy.deepcopy(mcset.custom_samplers)
             # replicate parameter settings and assign distributed initial values
             self.parmc[ii].parameters = copy.deepcopy(parameters)
             for jj in range(npar):
-- 
2.43.0


From 47f29fd3118b6ff507b181bad0083f4c60035e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:57 +0000
Subject: [PATCH 39/40] fix: an exception that cannot be sent between processes
 no longer hangs a parallel simulation

---
 pymcmcstat/ParallelMCMC.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 8f68e41..b0bb32a 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -15,6 +15,7 @@ import numpy as np
 import sys
 import os
 import copy
+import pickle
 import time
 import warnings
 
@@ -377,6 +378,13 @@ def _run_seeded_simulation(seed_and_mcstat):
     except SystemExit as ex:
         # would end the worker process and leave the parallel simulation waiting for its result
         raise RuntimeError(str(ex))
+    except Exception as ex:
+        try:
+            pickle.loads(pickle.dumps(ex))
+        except Exception:
+            # cannot be received, which would leave the parallel simulation waiting for its result
+            raise RuntimeError('{}: {}'.format(type(ex).__name__, ex))
+        raise
 
 
 # -------------------------
-- 
2.43.0


From dbbf474a96a52c7d4b5f38b5411a4d7e7d1d5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:03 +0000
Subject: [PATCH 40/40] fix: a TypeError inside a sum-of-squares function
 surfaces instead of a second call without custom

---
 pymcmcstat/procedures/SumOfSquares.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index 6295928..0e3ec99 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -9,6 +9,7 @@ Created on Wed Jan 17 16:21:48 2018
 # Import required packages
 import numpy as np
 import sys
+import inspect
 
 
 class SumOfSquares:
@@ -33,6 +34,7 @@ class SumOfSquares:
             sos_style = 1
         self.sos_function = model.sos_function
         self.sos_style = sos_style
+        self.takes_custom = has_custom_argument(model.sos_function)
         self.model_function = model.model_function
         self.parind = parameters._parind
         self.value = parameters._initial_value
@@ -56,6 +58,8 @@ class SumOfSquares:
             try:
                 ss = self.sos_function(self.value.copy(), self.data, custom=custom)
             except TypeError:
+                if self.takes_custom:  # not about the additional argument
+                    raise
                 ss = self.sos_function(self.value.copy(), self.data)
         elif self.sos_style == 4:
             ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
@@ -103,3 +107,20 @@ class SumOfSquares:
             # calculate sum-of-squares error
             ss[ibatch] += sum(weight*(ydata-ymodel)**2)
         return ss
+
+
+# -------------------------------------------
+def has_custom_argument(sos_function):
+    '''
+    Check whether the sum-of-squares function has an argument named `custom`
+
+    Args:
+        * **sos_function** (:py:class:`function`): Sum-of-squares function
+
+    Returns:
+        * (:py:class:`bool`)
+    '''
+    try:
+        return 'custom' in inspect.signature(sos_function).parameters
+    except (TypeError, ValueError):  # no signature
+        return False
-- 
2.43.0

