From 663d5a5ac4a0d859636470cb3f0b1cab4ebb7cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 01/99] fix: keep keyword-only defaults of functions copied
 into a temporary module

---
 hamilton/ad_hoc_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/ad_hoc_utils.py b/hamilton/ad_hoc_utils.py
index e5a9591..96b0da2 100644
--- a/hamilton/ad_hoc_utils.py
+++ b/hamilton/ad_hoc_utils.py
@@ -18,6 +18,7 @@ def _copy_func(f):
     # in case f was given attrs (note this dict is a shallow copy):
     fn.__dict__.update(f.__dict__)
     fn.__annotations__ = f.__annotations__  # No idea why this is not a parameter...
+    fn.__kwdefaults__ = f.__kwdefaults__  # nor are the defaults of keyword-only parameters
     return fn
 
 
-- 
2.43.0


From 7ab45352bf5f171f5075920b630887db2e7f6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 02/99] fix: overrides take precedence over supplied inputs in
 task-based execution

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..a7b94ac 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,7 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From 42b3014044c8234fe03915c0938748610fdb697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 03/99] fix: report an empty requested name as unknown instead
 of dropping it

---
 hamilton/common/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/common/__init__.py b/hamilton/common/__init__.py
index 45921f0..8b92ded 100644
--- a/hamilton/common/__init__.py
+++ b/hamilton/common/__init__.py
@@ -47,7 +47,7 @@ def convert_output_values(
     errors = []
     for final_var in output_values:
         _val, _error = convert_output_value(final_var, module_set)
-        if _val:
+        if _val is not None:
             final_values.append(_val)
         if _error:
             errors.append(_error)
-- 
2.43.0


From 24e7679317a06dee11ce55c08b9a010fd7ddf554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:52 +0000
Subject: [PATCH 04/99] fix: do not require inputs of overridden nodes when no
 inputs are passed

---
 hamilton/driver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index a7b94ac..69c4fdc 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -804,6 +804,9 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = _run_id
+        if inputs is None:
+            # we're at runtime: nothing was supplied, so optional inputs are not needed
+            inputs = {}
         nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
@@ -1803,6 +1806,8 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
+        if inputs is None:
+            inputs = {}
         nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
-- 
2.43.0


From a074966a10bb8f5da5558a5bc370eed9680885e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:53 +0000
Subject: [PATCH 05/99] fix: validate inputs in the async driver before running
 any function

---
 hamilton/async_driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..8a9dfa3 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -293,7 +293,9 @@ class AsyncDriver(driver.Driver):
             "-- the only reason you'd do this is to use materialize(), which is not supported yet.."
         )
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         memoized_computation = dict()  # memoized storage
         if self.adapter.does_hook("pre_graph_execute"):
             await self.adapter.call_all_lifecycle_hooks_sync_and_async(
@@ -308,6 +310,7 @@ class AsyncDriver(driver.Driver):
         error = None
         success = False
         try:
+            self.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
             self.graph.execute(nodes, memoized_computation, overrides, inputs, run_id=run_id)
             if display_graph:
                 raise ValueError(
-- 
2.43.0


From c26a47418131bca98f1b7a25b27cdd444ee758c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:23 +0000
Subject: [PATCH 06/99] fix: functions imported from a module whose name merely
 contains the importer's name are not nodes

---
 dag_example_module.png  | Bin 27367 -> 27227 bytes
 hamilton/graph_utils.py |   2 +-
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/dag_example_module.png b/dag_example_module.png
index 5351fb719b68ca8d7ce09d441a72e4593589718a..2884223d569d7a4cd3bb60314b19f4c741b0a48e 100644
GIT binary patch
literal 27227
zcmb@u1yq&m_wTz9P&x&a4i#xsK%|j{Ac9DPfJk?zv>>UJNGQ?`(%l^b($doCqCx4r
zbN&A3jB&=e=lsXL<KDfuW8?B&Z#?fa>pMTwkQdKo2=S=#5C{a}Q(2@k0)bHnzd~@X
z!YAa@iPiAGs|L?xkcdn4zbOsb(Fg=1;we&6)$QxXFIUy;<8xPcOjj8jf^jrSu4C63
zgr${qQQ}vcafaNcrU_BfGd!N;5A8&f(@dmY_t;L0GN8gJNxP0gL4vg^yv^|LCk0Z%
zZgS!HYg>r0<DY(4SC)tej;4i35-bcP61liikcPqw4i4_2ZVL|%Mn>q%AdzWZ#VpLs
zLxvNiq*17Q8^OV{dpBH=$Xo6N!pzKMqJeazq#^YG?ct->E0*43USqcySA8y@EJj!G
zvO?MECQ=pS?nZZiSJyQqC8f|QQMUMq2x4Xy77E>~q-rF1!ljtL<|A1x9Uan9w<G;z
zZ;?sINgye3iYEWJ_tAiN(`9IA$j-$jFh4&(?b-3h^RI#!rlzJxCnxN+*O}7>o}{MV
zqqxn*McCNb_(CP$%~o7MfD(Ro+g%Jud&b0kV#U531rMXf`JV@C2z8||!rGc^B8Gov
zY8<akPEO|N)(Jd`pbrZqr1@>RzOoYFb$Y<W#)eBoL=-Rb=Kf<TsS>Nn`<$A^h|TFL
z9+x?dLY<ZmHy`kt58raym>_MsybvyY)quyv#kIFFNzNh@&bf2Pnt_2~<5wM3(W{1!
zKOZAinQ-y0NbKzGsdhIqh`2E#NE*-n_C{3xD%ST;$;!Heh&)wNQ=_P~`Ncl&vfLeY
zJoPy~9;eK7fD(Z-J3D)O?eu7O=?X&sci-p7Kfdt)t4J2KH)yOCSMB|#RfhL%#ZhJX
zP!UNHPNir_**Y*lOwRiJU3fT=NniZi29LwV?kE<`;@22^dwaazXKo^I{$fdNktPNO
zU2}4B+F37ZTHIM^vvYNo38UsOc3A0AToWG1Q_Fw-`n9h@g22K=iJ@k>8EJV%MTz&h
zJ8Y=#sRr%dua6w<j&}5|e$`U^%u{Q#Z8}$vWw=SIbexeBA3#PsNqB=-0>P-$==o@_
z7H$Uz@vh@N6}}%Mj&7|JDFP>mi0-3hTvQa(#PswZ;V<mZ=ibP;?63VKA08fFp6X8&
zemG}3Sz)Px;cK@uFIiK$y1M#!bE@KvkqnX|jH+mof|-|>#KOWNUf7izAwhzL<A*?W
z_w-yrybB1xKy1y_V3L!Q@2&lOR!B@pNJu~@q&g<^^rU~J$;Zdc-26M2<y1Kvf>BKD
zRVC-$yEu35+(G@StJ2X{P*5PC5g_>Y`v*sVmjp5cj3Pkx=~GD;7lHmH(bE<I+u3@I
zNRRELkdUWutv`JDAeOr=(%IR0JY{BPhCnztI2iTf<!7dd1qZi>>ucaxT3Q+z8O;x-
zO1)51<0=mO{P`v##o}jPwa=v(85!AM?4B^1hj5O?p8VTlVq$tI-8z>7q!$?}+XJE(
zY{(|>^PS&6XpWAKQuNyb!3<*0`D|uxxNglznwZ={q=2z^_xE=m&iO=)7wPq$2-?jf
zTs9_lpL$Vg#Bu9JCMJg6Gwfu1^hm36W_p@N*ma9jDH)0E`SzG$Qn$&QuD`z@yO8FA
z34xBTZi&yO_u2lq-bAS}{>H`z`t8TZ-#|Wj!pzEgtt*1z8scnkL~)|hn&x10I!Gn^
zdCTl9J&#^vdo-)!V70yBO#K^`Eu2C@xb!QoYsB>LGBa<ljpq7O@w{SWW`3-WPpTxX
zoZ7baGhc(jlhGmjd16X_{`>b-JO;3<(WeDNGhPo13%loeWXESdjD>h@Y#adB(QgkX
z#lgpKtFRnTDJ%?6_PMzE<jIrjH~;RyhBlg}%HCcqEiZ5X{J@mgpdIJkyLa;^`|B?>
zG`h;oN9IweU|4}qIeN^@#<xlT1|qz-=$_pIOMLhKeXr@9>&utaS1>X0tyRiQ6jX~|
z=^h9@ctEbNuP>{h5D*hX!O6vynx?#?HDBkt&HU)mO&1pzUIBq8+p`V!u=&A~kc9(j
z2Z@o9z9}h;6H`;IJw0+Z)Ai19Tyc4M-?*!$=8caZKfboK#E1RZ-r32_$w>f?<#yv8
zP3r5%=j2KOOS(*Lh2PxV+)@m?!gJIMs1XwEF$TYCo#Ta^*<k^rx7GbZ<v+}clg4Pz
zQk?LanE%_|Z9xsCD>b+~$AA93FqAGMD=UjYaOzaQX!!}QPKTgQna_RC>|J0Wvxtb!
zK@N|jqa&wwB?0C&B2_DUB$DDrTjBNn^>Jc7pL6~sQIEjxZdug&dfV*mh5z_La4_oM
z>xr2AA;>Gwp7mb2_MU_^%3vqb|Np<x@xMfx20Y>9UtK0dhX)6RgVR+OKk-Jg6?w`D
zNux^Vqv$AtC1sEX%%oV7FS^5TlexLOw{~=7%AXt_9(Jw$%olfmCl#tR21_#}Trcfm
zM0N8fE;wH4I7uXO#n%iSzU~tLAA{K4WC&m0ds&XKHJGQ0Eq~SW*Voryhd@OdgPBGs
z%)!AypGZPViXaVw0HQ?yzln()?ck$%eJ(t8s_i6)GD%2>SaXV_t0+6*<KovXR}j8s
zWn~8Mk9~uKanPQUPS^!m=dvl6srdXo5^2CP#UkwEbE(+4kM;@i4{cx75DGCq+@R#t
z^aaECPlR)LRxaa`c`sQPyzD)ni?d-ih~(Fwl<R9yqu(63kJiaaEf=T5odv0lnHqA~
zI8wc_T=omC*g6gF6fa-CM2!{DfI%;xxK%YoN0aw|edMoQWh1GfLG`Q7RR+Sz%G6x7
zJtlZ$zxVI)VOcfiYg_!U!ET@j+kFRN0x=Jv5*$rzg|RF-X@k@Y5`<rNw&~~n?bTH_
z&$a0~_x(JC1l)g;)#UC{7dE0bl!D`(nAZso!bm(XFV8P1C`gCl&1M{@7BhrQrNV~V
z+S;Ad?WW#}xpMPpgv8FlLBEFLZ0-5!Av#3hQ*nP<-~N^SxA0q&4|AHU+irK^JN2Sh
zVav-#X!jf&8(VF^bQS$1A>^!SwsVcVyu6W?+rNJYe)@DBeFP;X<$sPy6b@oj$x87)
zKe=7YJyEDD{DGPuZ)<A{1s*w<@C6ey8BL%ruCcK(lc1pH7T+?M)xy?RI4pjeM$s#W
zO%)Xt`|}g$(E@FaN-GFYcFxWn5E|uZUD(;#(IK-dobH}!|5vgm24?1a<eO%Fr3af;
zbHD3m$I@kp5jEo{vk$E%cxzHHeREZ^(;&E3dmcMXQph2Z1a%)vD=Yh}<l#j~Y$?s1
z&JsUCyiih-gv;#0TNviqA-59~hC3Vz)P0jMz%3#oGIw8+WM^+x<pwo%PwXlRg+M4P
zEB~#CfPG$fB_tRr58Gn)ciD7>CDqn!14mWgj~|2s$>K5z0@g;oaNk!Eg6?}cI@2hW
znH2;;y(ZWm2w!lS!`z>PW%&dpRvzT4=8}C8unvVKYiVu0^3Zm+eX`7yDN1&JZH?V>
zyxd$xQ&Y1U@;itfW<zP%i;IiJwsT^td8%+a0RaJcf|gh=?Z}uIZ18x9`hoCZlrBNt
zfYDUBxuEmfb(hVl+uB)$g-N!zvMMVD#tL=cr%DC2j*nA8)`sxq)~!u}l|S0;Vpuuh
z7ZB*In)AkYb#*<14@y@chfAx1kbD<48DCjh2|JGdWu?{UBClB?R@Q9Kb;wcd4>q*E
zio791$H+{%n89?Jh%46$31|gLAeZSVG3<)`@+Gu0j3ymoCpw1w{*iFa!^5NIK)cea
zrC7hs?%!{PjI6B3B<~b`{vnaf%%s=%5|o&unny;+xw*MRC(cbB7u#{2wrA;VY;3?s
z=cV<seXO@kG=6j{DSdnqlB2Ujxrv})W=<0k3440{KVBjIWK5^0OJ-`Zr6&@(_a^wD
zyO8g983!Re1?|nJ$c)!%qNR|K_q6>V)AF96f0Lw96Tt!-J=30$s%HqM5!U?`NCw};
z7XIJ+x)7H!Oh(r)$=%)E#D%ut=e~XWR(<Xv2;U6}Phmu0DJl-!U!NNoP%JJjB|~`b
zboKV;4~ktSxbY&jiszZ}`8im9+cRbyzZY5NCm3WQSV>7qcJ}s4?ORV<j?T%4OqYLH
z{=cgp{+AH&|D@RXZx7GTLS5;Rd-CM!<HwJ8&W;`Hz0Y3`t=uJqWbVezn=LIZ7?7cb
zat8(Hs0Oodkdc#@c%8azOjj{@d&fm3CKjMRe)>|7NO!Wg6{eK_1df*+S|K5giND*r
z^&{b-W{Cl|`ZpcikWjpr-jft6aRqO!MP=gSHQu`1)|HOS;VZrWAnI$pFY93&$#qna
zsMu+-#ZPufJ!$eaiu?)+3euk4VrCb}B(4MRX4vy7S5{WOeLiGl&~V2taGLeS_@Hmd
z8wxm|<Ot8#d&AC@g?hD!h&jr(mLbxSY=yS^H~&&HGc!@jA;F>Y=GSs?{CvS6(|s;4
zid`)NniO9lFYl4xaLSZtj!Mz0Bhsw9#CkFi?=L=XD*-Nj7uG{M?g>)WNbaVKxw-ib
zUOPtbQ)`MWZrw1p_ZlsO?eas$Az$+HsNIQZ0%AOfnD5`A{E_&Tgp4c=RT>-|id=1d
z&K|Rvu+V1zd*czO!(158DUqtvQ;N`-FfQ+ZB3NDz9G%uiZ$?E$g>r`kqtZWdZ$Lul
zFBL?j|9h%wVenf(T5oRT9zhuI_V(tW055XjRYT;*k7=ln!NGW$s`^#nJ<!RCIJeH*
zt6VQRYQN$s)P3as{cSF^JIBmZ+~r$ZFB3ESr{Q<M5+2&}I<N6Lt^H|LiCcMBlgXdO
zsTC$#=epDyfRBE`DF07)Hez}7!jIaq2$E0Ur#(w`<+Ge4<q~pgg`(*19dBm#s!z=S
z*#m#8=6KCouir>eQ+Il_mvryJp9P3|6J@3m=(>?TQu*C4NOYONAxE^dQRw1Pq*&~K
zG21uRfFyY?lsh0eM?#L&<@8`vrkAJgZ{V&&UyZBy(dj7@H}`XNDzKum)y6F<N_TPL
zZT46CnsnUb0JG5({G6N|hZH>0m}e_u8{nhgfBVKcn%A4X6=(Y8<y3KHZU7|dchRM-
zXOGuJM|(R0(Z`v`UQKp#BbuGEbo+g9jtJYKe%zNYc!<H#vEvNy`w#BVH#*$wbg~GW
zCHgruGK;rrtNbjz{r(}NAdcu}!Oj3fK83DaDqn^35g!FJdmNk>*AKyXxO$r0>aoNy
zQD=;~n8wWb<2zf}u$&rdp95uX8z4$E#$Nl0EL!%~e_d1Q<ai^LeSYJq>hMULtp`y{
zo(Y$%YL8cc@5Cd4=BVPk=%g#7oLzpR;X~M4;~y`J3yrf;%8*MwP)TY_Ae*W-qIaLt
zUf9n^&JfoIBps-uuOj~E2NvS%-fS5BzS{GzS)=v8G3>98n6zEahq3p{t6E#E6JU+6
znh-JgUW9G%W(2UP4}1+Be_Hf+p9SYi|Hfe}&)i;D%5Ud;DNpI-X$CP_8!jZDKNmQ#
z(tLlj?F0kiQmD(8Uy|KG;Y+Mn)+?{rCGPXB^N7CxsP-+P&X=DZmtnN;Xf98BDmb40
zfQ(F8KYT-O+F!V8zQh6-3>yP+bJbkXwfWjWI!lRF*DEbyNs{7LXJ&3X;ag2!b|myz
z1HLse&LIcMi7^3>(t{ZHI@KmizxBz_5LJIjkq|%QwZ*M%I&A-(HYSg}C6FdwN+axn
z5&lj(^<xtK8lTk%7JVf_GRlAu{8%sLCaQ2+iEMBG;?>cn3D<Qd^|LYt6UtbeM(W_5
z;ul(VBOZtI!zEIK5BOT!v3uw3FYr8VW`hz2?m5v3Vp*)M-4M~oQ{R}nhBz|m87QU3
zuY2xllr8+&Rwv+d!0q1`D;PzVt_$$3z~^6xWN%HBJBg9$HQrT1KR3%sF$YK3ba_|%
z@iTp;f~$Px<u8h!I__QCTtReWcTHl7A$;}Ji)0QZ=bA^;*vreEU;mjvfXU)^{pNaB
ze(9q~`+d{($5p{cu72T#^zvMJ2B?fxl+bG&*q$VATdE-zcm6Ba;x`*&pDSe_`-y?D
zRi2x*q})GZa@r>x%-N^Pti3cPRZKB8!#WLA_*>w(Hi(NL`L`D`^Y_12k3wuiRn=j8
zE?O@0c+A)&!^cjTP@%xHcXk&4=*<>C$5unoN~#GnvvkgmzUgZNJVfyO(7viIm*y44
zt+}2~O1AG$t2ZxgQ#b!^opP)ZZmZ@0lyES(vUTlOPt{i5_9KL^^geY5M{KZc2D|5k
zTD}?$!p?5`&P>f>MBkoMyR?kKzrUB?e>uER);pj>AT$?*NMXCR^iJH!$Zlw9i)8$k
zAdK0ffr&u4Ukya~Mq0jgJ7?cbKd;;zBS#c_PGRZ%6AgOER<wIx;Ht-1Q44O7E_i>5
z_u;x?HQtau=Im6_tCkc7jwRN$ZSUFlQQvz}siUSwNO!u|RpXy5aI49&NwV5|^$K^g
zNT{=;>9Y2vbk!?_1FHo8y&}J9jJSIl#$J;r#9`eV$3O1sh&dCu+P-Q#vuF8RzyQ1M
zgZvM%To-2MlAIkG7X+{IF1yo~_zm~KCxe5d@4V8pG&f4F5&e)8Q2wh+MnTc1^N-5=
zYz}YYq16>GYdREaE!D;UNqoK8?X}B?W=Lr@iZbuHV0VSY6t#Cjukv&A4NFex2@?6}
z)cGwX6?EyQVw{Fjq%Aoo${);$LT*6u8Tn!`+T%7Eu864U!s4Q`nJ^Cz4*@k_@IavI
zmENrIpnxO+sK3OfDs!NqQ)1isjn?h{hX`3T6Qn!q_4+Go!5KN$Li8Ux2&wqsL7kkP
zF_y*3<9n+19_9{?jHrMDi9G&vT3l9Kj6l?Xc#}0RhcYBvG*HTvqd>c;Pl`3fb+yjx
zk9BqFh^73|ew|r#laQG~{PFq8zW8iBI4q7s{p{S_5cPtWOP!hjz}4f~PhaZEW<CM|
zM%{_+zb=63>wVt%q<J!0b}9O}x8UEk!!))0G2Vv{HU4wNUFnIi8~3jGsfHSQxPU)r
zZ!XJTz!7xCTk48XK_7vw99sO~{{7Yu$v%O90xM+Qc6EkU20a9L5{ZR{g$d|IG|@qX
zLYA$S2mv}C204r2hGv=0Q0Aa;;c-%148Cc}#ejHfmij_6$8+QggvUfs{Kmf7w|(|{
zCFs$t4LOW&HA?ndq9~nz5Wzz8b!PT)h>nO9y(aJYM~-*K&V?`~-+G5~XFq=SOra%>
z;Yr(64_ShMjjGclBr-rbuNc!;`aNZ;>-MasfHCdkLTq*j&8y(RId43?V*a$qZh1$4
zQpE;zWsXdIVG0V0jhPb6#Kw)_N9ln(pMIO7E!&%Vl;%6nqTTO4b4_h+j@nzyX%Wh`
z#h3_dYwII7kEQHnof4BVr*G%t8ug(*si;yU7b`1`j7!bZpBAsz)=JnKMLKW&{r%H=
znVH$iG6{qkT?O9Veir*06d0Vk#Rz-dY5nb3!us9%Pq@l#=!N-IRHwflDjk2+hV@n4
zhbV?aL*2<7iImRTGwf)(II(ovoTA`R|JEED!?94K&-K!2!!JwENut0#oVUOLV^gj^
zOI7vr&6~2%<(o&Y9YRKT?NX&{hjS6veSa-%M25I+Y)pOVHW?{J!f+5>q=$Cv+3~-7
z#y!`q<{Ifv54XF%XpMmER)8A*Pfi(FOVFI7l>VaVm8f)_6jIe74W~{7)T{XW#&}us
zpZz|3AV8}$+}uP(dQEVna#AWP<nZTqc6PocB_;pKd??cJ>Rin&EYj?kAd3YVrUxUF
zF6A*2sjB+_SggP9u2PebKvUoFNSav5{F$O+7s%G{*T;)kL_}yor1n!~S98)*#mLRc
zX&xLTfjZ7?I0JX8(i)$Ot6<<&P;0AAvoA*I6n_jR=2e1u9XI27C{Z=5Z0HWQrh^{l
z=H^)G<Gx?xPsz7Mgy1PI5B_15&BXDb4mb}ApMN9I=ftk|_|p5F_sw4;KFhI<vY$+#
z=^R;ku%zAJ-I#pPceFxvR%S_Mwf-pWpD&Z$+ThJBHO}k0)KPulU3DJ$P-lC&Ea{u^
z1`^Q(QuM~9gIr?VU}+mj7xnQJ1niv=MRBRQcC2)t3yK0ER~4tHNQM=k6RgTYo#5po
zx3hz3xepBDjhwE~^-xxS^ypE%fHn2S(GoGi7hY`cCGU5ESy`~f*h~995V)N;5GB!!
z84PDUwR3dz&&#vW+6dK`$@p;p!Gocy?Qub$1(7T+ZGQpXCS|zJZI|O^rRpDFLy7w7
z?B<)jK?nYHz+L~Q<BKdVh%-b~Ji4tPt!D{@l-;dsy#sDf*W2$7-~K@Nuu%S>1@7kl
zvpDXK13KaPlWCz*n?YGH+nCTPLh6M$ejoim{fU~DR$94-10(TBxn<Bb?Hn9hUCVx_
zAMOl6!kaTnH&sHB5ZB)Y`+N}e&f&G#@r~e50gO0i<AtJRBf}+Df5iUNWkIUmF^RZ=
zLr2j(u<c-e?$ZwiTaUqbq3+JV!?x;2?{7HWvY7kvC4xhv=rw$rImQ|RCqjx|yQVp2
z-#(fNIV7IaXYB`;LP@`fC1vgG%$>Segqe*=Zrlj2OHD-`|B!_gcTdZc-|E(5smFFJ
zJu%9wMHBjeR#vb>kj$sY@vhU9du^LFURpLhlrrJ8Zv&k9CxrN3fHO=ENHoM$Eh+6>
zXbXCl*+eFeGc__&raEo!VWUSm{XQT$nSu686}r2W9FwkM2}yRGoL)zx37k7X(*Nq)
zxRYQphWB}DLyql-C}E3lY0s2!BuPjdxJbr%5@oDZZ+#>uPbpBrjo~U7EH<X$v%S2n
zDtCNOg~uSR#G>>1<huDYjkcM*m$_R~AC&c)I$If@e1F9=y`Zw#NK|dxK17$W%PDlC
z()(8(1(mldA1*E~FYi4yr<-^WDtw4V@ETO+Yo(^EQq&txG#3{_<W5d9D+fN5^I_=`
zMm9WGe8y4H*ulvv{A|nd^!iEXo#2QFo|r}`Y2_FnuwX*s7RoK9ulzB3M>=9QXRiKs
zUqRl2^DxKPy{Q0U4F^SgQM?BKHsLCR9by#<9k!S|&V+<UCPts+^uYYt563n{uZm(y
z)fg8DJGc2}IYT0kfoSjQU{B*yChH&)rlO*%uCD$h&4ujvczBr_7Z>Np!FE|%R?2I-
zM^a-9m(R(_j-amC9NNkkEB>a>qD|#~j#pWvg@J(Vq`kgLWI3EOnryMeYRzr3;`HgI
zHc|eU3Iu{_{EEFv)5FCjgV#3ZVf0c@Qc5!`W}Ls4lu<Qj6-q^|`-r0u^Zh>&T7wu8
zBQA7^<^B(%wi|Ynq%B8!RH;v_JrK>AhCy~thb{<-F0u0=V~H(OGAas;Dy<O=1juXg
zmxl+B*KtK$@lJm|?0I!afA4C6uq)57$D5lp{{Mmw7I%M<)IWE}hKGl&>1vP(*AOI;
zFI0NZD|80=+rECKrJY<2hh&GBS3t6k-fM8?xYzSkR^fTz_7EmcoikkskKSWlDa@Z%
zn}ZkmjXCCeiiOsar%Fm{9jTkzq{k?+4}E<@X;Q4^8=riV+UN7%3VKLf)Ct@xQqCAy
za9oO_W8)(F$S#ztdeX9fH%^hhBWd6A-o<zTO3Y0V(L7edlr&4+ww|GZaPX;V60U0v
zXgf8|CMmG8GM4;PW-cnC&K0$OxhJLwMMB8Tg^C_4)v4&M+wF#{pX?*$GG#qUgW`j;
z5x#3K&VxRESmkG>90-ZDG{3JKR+AStXC4dI6LjL7+J$*pckt_I;&^&ur-k@@17pXo
ztsfn>lb#)n+%hsX#Y8kFij{Rsx{9MHO(JODL7sFx_Qv*%931St{Q|r1**HOwUafBd
z2UV}N$Hk!79<2c0l8^3PZI_kSo8OY|VME&NaIObFSS(>I{nAzZ^{8T*aqryRz@~5S
zM5zIja`c?HO!nbc%iz<IdrrenHSSdfuh^?1>bGk}3?@j`5Nm5|nzg^Q4_=aBW!zz1
zn(8PMTy3Cv^l0+Pa-qm<tdXUUlQT6nH{|*GRsE*ZIfU<n(}v~Nt&O);Ui(KpjN7yI
zcMf}tK-)kG+1)TmPcrBYt!n!4jGf~_S#xuLpKK5ai8H00)>BI^&Bh3c7by%UVf|n<
z|N0Lg0hUrXxiiYoN3y3kJ!3uXRUGJe?a<)I#%kp6WeG^Gp@s>E3sW46Zn$1*Q>t$^
zuK5!+oG`Hp<CjE{R<F8}GL4IQV(yPoyyu-iWq2{tNY9-t1SfHjc|<?C5`Mz<GF2gt
z9)}pe<0C_pjEg!YB1LN3`zXzW2aM35YbpkvO3eOP*Ei9Bo7DD%qB^;W>PN?TdS~lc
zs+cEh#LNH50uXKgZMMGj!9cw7DUwPiolE`LD7H0QAGm2_YkJ3Qs03f=&{0yy>H3TY
zH}~H^yN{r2&yE09YE5{hNwG-nk4?4f>7Aq*VkxM9uM8wU8PI3JK!^qsbYVn<0SWMs
z`<Qum1^>q9FALur>fAgZVj)seGXp@)!9vhZH|V;QTfgkM;y6~<`~3UUTkI3{RxPXz
z*DwvqIe%@1K}Fk+6lsalr4RPpL);@(M0<n2Q%jmJ727zB4~zeX^GX%!qAPD^`kAhE
zjSzHAQJZx~IXc>Y`#?dE&++k#lw>P$g{ev&yGzyvmxUc}VjN{Qs55yTf9TmcY^i=b
zj6CR9()xFx*OTbCA#B0<s-x*_zOo@OB9^e(93DTdjbUMSGXde7UMDh`^^Ew)>Lm|;
zEl5Uf&K=vOn?L#aicKmx5Y3Kl+ea3t?kfy^gNEHWo)1<`5xy1H)*semX)Y$Uw1V+`
z-U$)X^m>iQ<iA|F9JBuT>m)TVE3}F7;^nu2701`GWl47JORC*A7+c#O@3LRq1|fh6
z=Sq^ehX?V<Kh)jHWUjoQ5^d_%_PyI=4i2UE7lW_%Xhi8v51JaDOcly7Oxj(_q}nFy
zPox;rfcIk{id+O&>c(0;-B$Bw{Kj0mC=}klj5s@!^{*&h1f1z!n;C>^?D9m#e(?)x
zaV2qC7eX{QDyg7Qt1R<<xLDY)0t*|(K9V^ERau&^r`Rl+U~gRxh8L6yTuztb?|<Rr
zIq)zW&Ju<E7ZdUA%e|XEJSP-tmZR@LqNDvHm}*^>#4vMk&e9*qHQm$7y<PdC{tyTK
z7VkM8Atu+$N3TyNlj}7~SS_n)s^&-8if>;nPAxgx<o+Ild%3y2>8d-I8#5ysPN-dZ
zKJW43Rv?`cw%wAR9_JUntDjd_11fv_BK78Av1k6)VIc&|2JpQa&xxprw&MyeExK_g
zlON2kYG;2e)Dhoq;wFsQ+gB>eC5IvwDs=a=7nRRJxm3!pthQT5_|B+&ej_=UBE9a~
z+D{y_H#?i4(IlN8F}oO*ba3_1-zMhnhC3lc*r(-NUw39g-cb!ief;|FRI<tr+*?20
zPD^+NM@i?OyC6XPo>o6?7})tW{wCS$$;q?_hF&{zNxCn{w$uB3je--eT4uI+0(oGn
z#(zw+kB#GS+FOvWoa!7)MIfAp_j-CQvoxiw&^YL=A!|!}J)Wwn>Q2{;9?AK#{oCmZ
z)Wprsm>*F)B1ELb+lGh9mPXlAR&><Oh2BzH+7IyY+oh!u2!qR0+ay%>g7I#pk&F={
zC3k<;xvp~4Sl_kxl8inO3!__ftq;H2qsq2BKzm7mLF~#V1dj0SNel!SA4bM7Eo`br
z&3(CBWRnsRP|CGG5s_YA3Yuuzw*@g`QSA($cDf9cCF}g7?R0$hLb0RgsnuwFFl(uJ
zf_e!8p;}q~(MudcrcBY}J4Y3zxoY30=8RviY`UJ?&|x=l^9ZhEC}BtL&8@N`&>1(#
z3^Hx8){Id(jNC$h{ik#D@=_Cec_%Fgnr2^NuH7@L)|vjjt<zL{ye%zK?MNfBMYs#D
zio<^MB3p63&zq-4DcFy3es5OP0aKm2;`p&movS~`-TC|A1X6P|!yu_m|6*-@<3<7_
z#{(6YWjure-p#MWjuWyUj#oA-atb&oTTDkz3>xB8#Omx<kMtqQX`UITCe*Hw24A)?
z*!Oho&O*n(D^<U?OO#yL@2~Aj=?GmMV0`~E{U^!&3_R{+sjvoSN_u|K$@2muahGty
z$fLza^jLF&;f1eCEPOO(FA(!tbGK(2-VjP`F*0w5`FyILD^=ZK5f-C~?!mXU-Hv$3
zjF4Cw+q84vrUx73qOn_=!zam5zSZc7@!)-4ss0)Es*v4X&=>K|pA%u_UPrumsz|))
zaS&s9_;b+KzQ^NXTC&I!aD?9U!`FUptTBplQ>x{UbJ}kzGR(I1!}hf4Cy0Nk8W0u2
zmehr0S$OmHTNvnbf#*ljGcKJbF-pG*iIT*sSx>#xigKejUK)61tE1z&mWRswyyDUl
zuJYI-nJ_7nCs$q0T#3`V@@_}UInLkT>SAt)E7pE!*JJu{baeE!fei*rS&yuo8{6UW
z!_#f=mc!iKTtn3$O5Uoxz~G?6$e7Q#h{1>VJDV>L<{T&PVkHTO&F5o)VnwQQ;_MHe
zgMD?C32q*jCrRo{wErFJX{ytlJzYIQy0_7@btL4w*N4B-_MMp^^2Q7O-~F-2esztL
z*v&{r72`vqD1&v~{yQY|TSgoRjM5MkFRI?Kevs#&sx5$KhoCcxv+A2+GRE<98VmFF
z*Cj!$)Rk742xu`sanrm@U2YbJ>$nn>-qd8RKjpOgwvbyYRX3LmRB95J(?CuXG!q74
z+f*OZ29#)B91a~dyuC;GvYdNoKw@h?D(wcJ_x-DiZXV<ZE>$ZNW!?%=m7DO+guFJd
za3#tGzYj-F6s(t~JgCSCW%$i?JkJ<o?|2a;@T>9hQNs(Z!Jl~=481N#-LrMIfmbQ5
ze}&oJxx`xP`HgUhxU&7LF(j_!-e93BE}i?K6m(ufRkwr8G=@7qTE8mAkb3l}X3iP?
z!pv8;875!e0~3oPi<G@})M4#EW1jaBasde|BP=H;XML?Q%3EZ(^Z{3w6nZQXH7)9c
zN}8TJoJkFizY1z~=}<H`eeA@cLLp_Kdf%f~@LFe*7M)`bvn?5I8^_IUKCa@CosB|4
zeGKdq$Ofu~7HX*aKuBu433c97ZH+D)i4fsO6_n+uOSx>~chhayi=$#UDs;~S2ZzU^
z8i?wgbt#3Qm*-3^@U}Ma$<XY3M#kL^$9mB3RU=z7N*_U5wlakj^$y+@{c2ovDdI`_
zb90T6jfwtVl%oD?qqCv(oIe9;k>CZ_sHu7H6<xtJ9Pv!n(BD>p{SvuuyM3OoG))fz
zqr-I5r7lo=OIu<2rTf^w{wk}+g)?;iH7A#2u|<0!=`>rTuRKN;KON6dE_Z&bh3?(R
zd2lMCZ=*)IpZM~-_Zu1UHy<`_dX25AD^AiTB(E*ca+v8%>bSHkUw@Ki!h4^e!%p|M
z*ZE@~QcDYSs@mB`r4i=wU9k|P^2XuEF7Wd<?MC|S8WoRM^3($=**3iLa`L?SzM-Gc
z@1=smX7rW9Z@e49IioW*WWM}mx=K&=7%0d1BOxG9bmJ^9FN?kG9c;f&{(B{9c&6GY
zY2)`EaY^pFZ%LW>rpexbr2Mw@Hz?>-EozBq{W9LgRbLbpS>=dFdW2;|@Vz1C9Jp~Z
zyi~`ODX{%HEo8MJm;$gAIfaI-=kZPUGEr0BJp^Mb3R?A495mXrxbIKgq}a*AJ8uD@
z$>B0lQ(bL$%Y+o@AwWHDT8<ZT9aI9hc=RXPhZis(w4w!MPdhM)cF_Emy{sF^<wT=0
zaB!8)uM@W=2VX}HG9{&5K9ieI6%~Vuig;-0#Knd;bphW(!Xb7beR{5|7wUw7$i;Lk
zV+ViXHU+RWdU|^GfOg2A@K~S8P?1tlv=x4}2Lb}nA$=R0a5Q@%=|5w-AnLw{!>X9X
zIg(xo<#?)AnTgqGj?(8%|6p0t8!jt-3vD$6b#-<NS2i{`SH=_o7Ug+Wf49s_TU)zr
zYO1#Hg!T3AVu#!D-`jx%H?Ke^Kf+c5nVF^&perv=P-!*kH$VUS7AtG|lQ3%3a3=oA
z-YQGox;TJZz!FMMS6c6)8OEZfi`L_Rf1;wJ{VT1f4Hnx&27mq#??4(DFauYK=i}o8
zr)V1<CWAJt%s`SY!;gP9bNG~;%|HOy|6P6xoL-7rzB(HD+}q#(x9_#mLt!;re^W78
z3{8SHUS4>p=KkHKvBPJ^xq?0dTbKSpnV)T>sOuK3r>7?gJw1`LvopwB1WTP^{x!$b
z3F;4RW`cb#j;}%E@(GY;0`ObV2-5*riRab70z!C+e%n<*IPc62=_;L2VPODg*9BA(
z2^}4wsHo^@z6SA}*CAb=`VVpAr_$GHXx@uo9AR3HeUq%P__+h1i9vTHQ;v33VcIhm
zvI+-s7ieCajbssijE-K3wVf!&K!01ndI}2x1?A5Een3(ZJ&50d0N8X-(LZv)qNk^?
zc3LHqSD1S)gxcPYm~HS_T6uP?<tr*8g5FzJlcmyywq9Oddz;f#GU4@JvKxR<6ay*<
zB8=2hqRf?=y1J#h?Z#*t!BXpK0Zy&b3}o_u03?7UKzFl6E1jd__p4%6**ic9Er!;6
z%}Nk4L+5tWWjN4%sZXQtAbjDu+W-Lp1TtRSN9_Ln`v?S3atORe6OFGIT_0{@y1E{E
z@^fpIVx^|07MGN;{my23PEAeS-PZ>|Di#1IfdTkbtz%=9ZGnVsfU_#)tAEda#gyh3
zlTbWeZO;NL0-PK%0fQJVzyNN4mvNsbi-l!mWO!~WCW+v}Vsq*>(!w=^KYVEKiQyon
zqznX5S-&fM#={H!<tkgf_O33&qn!m{gsuVkxq}*F`KDV(2`p7doSt_GP%J$sV)lzz
zAHu>)3_9=x1qB&}gs1@}0@~!^JV;fxjmK9J0F=GOCBFlV-{Q1wlQd|rAQuw?wbu9f
zK{hhEZK}d@2sov)vws6ebC(xElw2=UK=?(!)mo?3E7sP>*HDF;C0C}aY=gqW2=B<p
z`@$Oq!Wt8Z%GNA}1YRf93(%AwORsD;PuDp9N%J_|0#@T~W~Om!Huw7}A20|&iC&wT
z1%sis3=NS2TZ=<P)Cu1O*ffF6i{2m(=pDwxFB>0kKSN_|d{z@AV0^9fE&eOvUqf=1
zdlV*C=vp==N-#S+ZIcro0&{vr=9*llGEl)+;b~*JXn0>Ez}k(om!L%hTZTx)=YsZG
zEN2Vs_T>|}A4veu78Vwms9b>Jt#;dGwgA7TZDMKpKAcV%7-mIEm&>z%#IO~3t*7|D
zy=r(l<}#QfdE=48EiiBOje%4kiO^UmynDOlZc;2Pta(^M%^HW>^78WYfPyWwIsPFf
z$HD*%<4Fv=n%(9U|BagsUJ{l-)xI_|dS~1l%f!ftD9~>5YV}AK^9tn?eQtl^>g4o}
z5$A@Oryz7)n8vr@)v}Ff-)RTNSZfCx8@uJ_PYOU3gMg$1ca%B57W_%C=JSBfOtt+)
zqn9u^&;U>|(_!!A=rxIzmzTpr#}|3Q@-6!jA><VlhU#2xtHEfte$|=H);|LJ6axXc
zESj=1b_V+G)KOD2UPm03CmLS}VK&8gm|C>EYis(12(QPBb{I8uY>G)Q>h2T*jUfU;
z!iBXpJPi#EphAj^d1(dh5NJIafNy<M(;!$Hc-6GvY<&SdzDh(JzwNa`Xo8E6AB|r}
z%JSrTZusJXIB4=<=Gb6O(BFFEf0gh>!ApKK3yWBk<IxRUTif{f`0FR5r+>5Hc^Rys
z?GBVP0`d0kTO6EjFM^-DqQZmK3c{#0noq_d$TU@(@C|sCVc_QsK}QyJ{7rx+_W*!&
zS{=p)GEu6*eSdk1>bft&NG1S?6ol`mPcxsr{yi>Y+`hc;eb{|pan`xEUhnbtR(i@y
zytVXOkS48-6}*RS-a0d*<D&Zw-dyS7!D0vgS5c1xf3JEUyrG`Fo$Qo9Y&Mq=9;GiY
z&e1e8+M*>TB>~v&Y!4xag?f1>wcL4K-RR=skI?(T0Hf(mv8m_M(%6s&!G91=T41jZ
z=FTx*rBlKM*MW&(VPTQ~!iO7uN8w7OuuvI91Jq2-19$;g0Q_rBLu4{CG3g<s#PGEo
zcgPN^D(_2lVBU5g1+89OaB<VnUqbAb?Yjjqioe*hujn$_Y~PuJ$MT&yyc;DuSpUWm
z?()ok8sho)25t+~r;JP3*QtPkBOEUEi@|Wv#3H;Kh)WJp2imk=CwpxBV!gva(~DO_
z<t(9~KnPzp8~b)Mkcci6&C>Pt5s-ysbUS8}DtWK`o{Wbj>43<%5(`5G5_)<J14*K7
z{?~|?$2vMX^m{(Bm68VdF*XA#2n1e^T7Ik*QX5PJfdCTaT}1`|*Th6)aqH<yX-`j)
zv^2Sc;-3KNArRgd$EGzWetv#(A`-?BlHpB%m?6Ct=^<wi_&tKr!xpG|v$;l5Fpan9
zsOP*s=CEA^1|s<8?=5x>ZqGYw#B9$m54V1`fx}(d!c<jLlZLp4K)`+6&P!!ROSuoT
z6BFr729m;LBIua_`B%x3Kb|kRgH#n+`Q5z*QxRxN8aVJ5`RZKIdYOj+CMzfBmz!(e
zsJ{+Z45+IUKG>MVgq|uIWryJq#B$&{Fh}$N26m1WXzK%-O+!NypOC<E4-}Ck5lMG<
zA@AcADrimTOz<DVNC!-|_%$_&)6&wu$bL=-$>99O`Kj4p3PxIb`uksh;3Nybe_sXK
zOjAoM6%bF*_q$+y8F8+F@7rC95bv2P(yk(cCF}qw72T_9>Fm4;=p{M~0Y8aApyv&C
zhb)y&73Jm8c^t3fZ+SRb3uG(MYp8aGS~LZEvA3t1ZWx=IN<r^hOG^vFVAL<m!wXVD
z(wHO%N27<%YpOtE;j*!@RXeX!7V6aaWn|nE6c%1u{vMs9n)^}b6oN||aExe=>%Px!
zU}&iSUo##n9)dgI{?XtX(4F(Z@a`NQ$^g5bq0FYEqr>aAGf(#OTV7shTM+S5eo^CN
zb#+QVe}DVKEnV~#A-&;NN(LMfHC4d@UqM?3<XbaMJ`7-0i9*h;=x(Es^IG?mu#gaX
zasx6(2@4B$o4LlY=4OfZj*gc8exlwuo&ndqD#6gHriKPlbkqC6g9i}ao9E^jV3+vk
z=Cb|nPsG>I7$+NN6o8Ib=O;E5yQNM-5y(FQ=QJK9jky={qEA1@n4kKAqMRHay_hF7
zf?iu&bGbSSMxOc_L)&?8b>!MLB3cO;pa5QwF-C3yh0;WIivw8;2=ydR8#Fe1vEM?v
z0w$(!Vew@fqyNo%UtgcmL;WTWi0GuGq`>wgVW&nWC58L?A~avVj73ptnV4j4n5oIg
zTmz;PPy`OA1Xz9%&m$7$-0S=nqus7}8?dlIZ%dS!{J`_<kvB5B1uOLq+$x12>bK!J
zW=*m^d<IzeRp5?c8lj<GCdS}8IXNcq`!%QZ?;kTq%~Mqog0@_AKkq}%S&h>fZ>(a%
z3+gvZx?8PVhO@-NX`#OQG89VYfpmY$STZ|~p{B{{`GKHFTU->cg`a`W<KyGAyEr@c
z9RC}fV?dUnyfIl!Ih$~SG;yz;5u#92D+hJ!vZ~Msvs3JM>%#fb<{yULe|h5Q9*J=&
zF*}_c)qmh;Gz$UaUeCYj@zQjOx;_Tx<2jvBTWKI6$fdg*tA=Q91{xT~mA2&n*l!4#
z3#~o0RWmtF8BTSA3A9hFBAnOZd#!z~WX~$!w5Giztl2NpyS-?yY4&-usZoVv)YV{+
z4HKw)Ht0?CBM>JaZbb8-5E27}I3Pr_*-aNuKiuIx5}3`%XfBsi15x4D;l|L1J-&@!
z^%(r?qf+_(zewmQLnGJU%088AO~F+`AOO3O{7KD^FA{KEa`AR%y&rHLl4BIcu(HaF
zj#?p59tcIH(ml_Ivh^oOqlVr8o$w<VSDgRKyliv^h0#0tA9>PDT=FIoZsKyf9v>to
z1R~<G|1Lmw3-`BVbOcKopi0L^XpR-P%rj&$v!9W=6le#4Vgn&J?SNr-M~w1<ml{0H
z^3*D7P5)q<2Hmxi_Ey}phjyOwORmNZKd&tx!+{fi0Ka@eu}z7U@*1@sEpJXw2Z1L3
z^!#D>_ns#Ji|Siz(|`s8qU$>lbap|WEOwc*M>Mz1&#=`$Ki&uo4aF1Mr@;c<s`#7M
zGn<A2!*hc}9vnYT6m^wN(3gY#$mr;>Y~rm2=$qio%PtM8+x#wLVJ}RRmw2|Q4*VDA
zR4q;2rA}Dnx(10Szw1_0y;8h*pEe%L$PDYbQAW0Yz&a9j^M=7ftj~)d2b*7GfOkm_
z+LNBxq;ZS>OD$CE?snrNl?fqQ<421Q)2_4b!d-zKTbIXWX6S~(|7;m~Gt3dbtx>B`
zzQ_ocaY1H`f*#}#&pr>@h)5%iA3V6=O4&6K8W|Vf(5k<ozl!)OUQUcVu!IK3c7(lX
zy|cqH+=Q9zpFgkEX(E=|l7RhK*gO6kzjkI{a&YKpv@Qqd^UJ_Hcc3%T-ZsxDf=3t_
z<|Qh7;qmUP!mqOkmJCJoNTd=R>Tmcj*3N2{Otk4{K-6Z!5;Pq^xAAR^x>u;%m-u)i
z78Jz4b*ir!u6Evm!=>D(Xpmyw!C88ORBl45Bv^3jw*^vOlV_0~t9mjT#Lucun@#^E
z$DeOX7#SO<s_V*>0}-Z2cur~InPim<Gni2*GxK!`H3bR)uguOKt~%<dV)0d!4_(&b
zGR*Y%F}ptg-Q_C9D4SVqJCV`sGNee)!o`nWNknMW8#*G67&V{JbSd-Dak^FbRoq|U
z*`KA!5j*+#x@wedZ0I{MHo5PYd$@cSzbL0-mQ8n{88ofVBek|ZZZ=UGwsGC)wy2kp
zNk+O>U3ku~6s1OMzbof2s_Y*iwu!{dHRl`gslO_ZUO)?Ycf-8eN)G}3Ucx`G^xBrH
zZo8dGcwc9YAwpYeBD5AY?;CSMvu%E`9rw5T7?6sOl^=`P9P76JGgU$_e0TDNVx_`q
z(Fx;`1;T`2^ZgU+DKtu&lb6TDEkp(aKNCDy9i~4<J)Nh)`irLK^Coe@Ou=)#ebM)s
z(Oqd-UZSIU>o_3CfwUQtPu0)NB1)*xgwj-J&<^N?7nu3)&TVXHiO2xR3f;SVb0@IR
zdF@;7Pl{S22CWAl2D`a2$XrYYS~mW%`*HZyDlzFT(~0M4;>Lbkq%fKRl8W|AZaKY}
z|FpPQl$(n!MgHJjPyq8;Vs>4QrCG{A)m-Xj{BFmk1S%aApA4rD90`WU{S9t6{}CK+
z&9uHp-Gzj(xqFlVe1lT@^Ix9Rz+ZewC?jc*@eBea^w#bAcS)(FdFuHX(6U~>8c@DI
zL<6lTFS|=FA(yv~Mc$<?Y#pmjTBqSV)ppobnA|LD_FKrG(61e=b{1A09_Q&$44GBi
z_^ut&^S-`j13k2)^K^1)xj>aP=J#@eNGUjepKMYkB?^x$2WFUVf}sNCD-iTSD2DN-
zA=BG2za<n3oSsYE2gJh{vaJo=OC*J~g~R>5XXb-MZQ-)Gqd8jSu+2DX3DO4GPre&Y
zjOMAad&LN%uf`Z9D|Qt9P&s_s@w9YmwyP_9P{3gLo4LwNlb6(xF^QKtv7b%aQ-J4&
zH9`~vL4Bcyc>x9;TWjkdz<+$Uy)1Dt7=qzWtJzZQqD8%CG=vV=OHF$m4+y+>D9=xP
z7;JU0V0J_nHzPAM)k5vr-c3;=%&zCkz@{1Z1GOx;+(<e!q%=4-cCozW_5%(yv$Qmv
zsV)($wk8Lb;<_%8(r3A+&(Q=iugk_^CaDubP$EFq{A}*>oS}S_zxXubC!l>f^5<nX
z6r*aYyr8NmuSWyua|_bRVzZ&gw8y42^Z~O<=u0jtq3CFTHPAtE74Y`0WbS@1;4^Ya
z_L#J1afLW|xE<_8ZM=n6g#fk7DYX6*tghWdVg|XR2VPWF<u={=65zx}uNvF~peB<X
z9Blu%Ia~VuX~-una2|d1_ei?sWnN35>$zuT9z-vglm!9<17TJNhs+>J{~-9StQ&nc
zoLlT^>%Z!m%Q(ZNg^8i`Ogbk7`q9~7Gz=dD<08_?r1@tiRnY<juIujC3b`8?zxPQ<
z_=;P^43n$OqS+_qH*d!WhcHHT-Sw9iYwEe)etIJ3KqkPQ^nR7QVQ_FLRo<Uy9)?#k
zSs^ciK`2lNn4YmqC)+m30GRyRsE4)S#c}k}U+n&kf9<feDTQf%na|=3K<>+YbR(0I
zHs$dx%BN4CYSucjf!g&hBSRx+B<0>3pM_uEPs_&|a|m|GBDtg38KHafinZafd^`C}
zoipa4pG|9XGl^lBcLZEAW^EHY0Q#^Y3Lu)n#P?emF<o4%uyiA%4~Lv;dD%`(<m3!m
zaxkPC{6&C&2=<=S`WPY1vjxS*j{V{E|F02uZDN>fKl^WINB%#L!T;aRo-}oee|COe
z;=XS&X$c*r$HF%R?Ovy@*N9eWEFVBE(Fz$TzO@u`F^*>gben~xC4UUet9R3eTFNs2
zCksHIrc6#kl7b?Wi$S+gh-KW|1YvN63CAz(88f>x&@sGxd`Qp;lwfXE_SQ$`RSo9)
z!-t){z4%bTFY4V=c7G$|#UL!iIRMqV-5yG5W43{Y_4(KKe2oy8(?FHo<Kuf=Wuto!
z)S^Aq5GG9N-QMgGo&)AKh8X5XTFX~QNH31=p?fhHORQ~;_A06c>X-mFN9OE&6b^}C
zj9COmN#wnoUva{?{eJ6BbY9JGZ8cx%&hHL&L7MkX7vxGG6b!p<#N_q>fR=AhQk4l<
z`Ab(&hjPD1l||;{NX&KLIC;_uQ4PyW#v8Il)`<!mij#xQ_s<iB49`!*p*qw4=6$Rv
zmFBR#F<E9dJA)gMo>t=d=ha!c1D$_3yU2SB{+*E?XU#@O9(oz+^f!*IAPQ7!dM($P
zP*G4|!+2#xxC0COHoOvy<?wFRt1t_Po&`y>9xvj3v&(K~X2D*2E6srwP^_lQWR45b
zH`muM&&cO|F1?fl{`FJ2Aoq?pVe!zyVr0k&uhC+;GR@m3x1RVhzCKL0nK;j;fr>qV
zNh;9OiX3ga<xp?y_r-7T?01*k5DGcOBJ=uyWJaetyLb4p)1O2@!p|?}el-XZ9lYxd
z3=!`8v@b?VFn*tv1h8<1gi1!rm6#3Rcz5j@6CWQI6wwS8Yd@N_ka&EqTRO`KJKbGj
z|L~mnTQGnKKRQI7y5{npO-pAmGBGhtfYb@R4?bjGfCtL5p;OHEz0XH5YiSRoD#Vpb
z=JL$gtH0`qx5UHRZIglo83Rz{ARZ-O-G8#VHYVtVdM&BoMjb6nnwFMk2eX=<qVBZ*
z;VAN_x5)PB_$guDQ5p>It@Ymky6qB{5;P*2kdTnpdv_3~XHqi@{A2Z8)PU(r8_ZLA
zXl7x#1e2E7g#%PBZ_4ON*o4K!#gC4U*=j#rNfh>>-`6e={8C#B12<&Y{Ggqi4P7-I
zNaU~+RWu}HYlgpWL0@HD5+X`SsDkb_ENpCw>TvL*h<o?$@s{P}q3-uoEVpC9oXE#>
zC^m{vAA16Fx`<cA;vlDGtIcp|D-XpsFf_o|LAyTR@`tu5nFZ;n`@u+Q?QAk-6%{<4
zuC4%5HXtz&GWyE6&~ob)Rqt;;@>e9xb-VSE__;_w+Gj#jdlnK}AZCi9Ur7!$lc;^m
zZ);Q{uSpn<CMUNuiVNCsj$mQ|_SF}ikU+{$@F8qrG<D>%%JsMXBa=<cOR?DDyx=s>
zfV<{_IVHCz<BWKf>pL}BEr$qZZ<e{0$w%+}4X?6#U?^{B{v?nW$(DAfN!EysNt<2z
zQ^ub|8QX{?cZ;M0zCWkON2taDuR_N}$F;^S$A0Jjfam`x@p@|#?EH`7&F&8?o6l$l
z2+%2%l&?w|Qc%?VxgL{VklvfDpIz<oPpFn_5B|VENiv_zSj6Y#)4%NS=mQkfN#K(S
z0_vBavvPk5S(=%X-*oWvs3JqXo+Zq`aFJX6W(8PnW`%KcC0D8G)rL!qlR#_sQB&gW
z*#)C{8rII;2f9kuX;+)e`Ut$|Dx_i|84w@*X{oe&k%RZHgdAt~@i0U7&i>cjTRJs5
z%mpxGSO3sWuvg%W>aH8pW&NZ~?CgpzN2O1hvQ0sD$QL1e(WVZUPw5-8>C3`aXMO(9
z{ycLp7qA@qczpS{b;_oA<JGQ1?MtnH4Fl9R?TwFqrongU=PnWsuM)@os=Gnj|FSCL
zP3&i;x@_Cg*xRpYVr(K7N7WOBUuu?mZOU!kzI}z)WQ`#6gRb#O*><rKif<hAVmx-M
zP^8z5`5BK@Z`zw$t;5)xb$<^g+v=)T{tC(;%bILJRl7VqOT#B`vcW#gp!PI`zYZpx
zivf?fVB6S6Dl3zbg}eiqP2)W{DpNxP1HZgHcCMG@%~MlffH=3?e7Vo14wI%VQL;F=
zxVe@0^FD&WQ08WT{(*VEX;S9Ez-lCwd@0MPFFyA{F})y`nzM6%@>%+5Jxy#~`iM?M
z$%x5NmJ}<(p;T|a%!w3N!vLdO_L=eOr`^)HMtu+RPH(=13zjZM^FiOeE;hIRgqDur
z9p&C#t>1wb(RV(47V<aY+BaUYx^Q?@!=ra4(n0*@!0`j)z(Qk7mQMM^xAvwF#%jHE
zzN_aQ3)!BWky8s;v`?6q*?n%hk$-_1GhB54Tr2n+*QF_H?`4HapLo_tVS4Vcb*_AJ
zOv;s!-JU%eH5CIRQ&2DjV#f6i3=E3P%2*x%>A}O#A2T|t3JwMRcS`_<P?4kmYrz_K
z>Ln@tOas^Ho2|I~Rg?3q!XgL95U~QcB2tO*BmqucJ>E=y<001SaN6#rYlq#vy@tti
zKAM#aO&fD349W~*i01BUOd20y_EUG;@u5%27n=$f>*H3sr~C<+5geS^h8oYrE(csd
zKCVos-L<2}lz1{_xW#&VxUuZ!HJ_R12bZ*XqkMc?O_#-1ggv(VakOXl9?}Up>T5HV
zDyEIIC*)z&F}B0s;JIaoDy`D8!Utxh_$-IWe7QKpmv#ok&oT*&PreBf-dZ_yRLv64
zqh1I*jx90zP6nuWNkzp9ghc2nMn*+RIyvz{8=|xC+cJ-#8nivo@=||);ZzUF-5`5Y
z$H@V3940^gK5y*3`VpdcxO3DZT4Ub2NI-r1+prS0w^vZaM_s*eAz}$9&ESosEEkn4
zmDUS?eu$mbPX-0KZg&rVEY!U%x)Rmu5UBW-QyA|@abk(i%T%S1FcH?e@e!AluVvCo
zq8!f@e!hV>7dJg9xpGn#nPzQnEd0U*g$VrMsw_tg55xWf{TwAGhp`}YNkZ4+==^YQ
zXlyL@*EY1hK(>2*{CA}yCov_<F6mEaST9u#t#i2PO~qhAZ&mIFnI;U+i)6Z-oV?iX
z{Pb*ApI;k4oENT7jIgejdhAm1kofFA&aKVJ6#1y|h9WaZMQS(N;BV%!L<@C<e8lgL
zJ$4t}n-+QfT-r2hvQ0gErcBb)r8%jX;7qj6>;vwOm>Tb%>|18`D8WsB5#lcu_B`SR
zrM0uU83C<Vn0B{!bX)=nxYQJ~9z3FRTH#n|&+T5EZl|ZG`^UyovOM{4m%m-g%<L|-
z`cSK@sld~gl-&Ej`ug%{D&P29g$SjHC?PUrOvcDiks^mOg(8HAN}|jW$($+klp(Vy
zGOLV-%w$NC3?&&$rnvije|Oz`|GKT!TCK_%-uHQ)&;IPaKl_CYdeVJOCv^rw%;?O_
z1rT(dot@X_N8iy{OifLF`}Hdr<RdWBz3-h~h`K4&`P<(D_V*DO7W7qWQ_jmXtR`*?
zl#`Q_S=rgC`T4<MFq=YKH5*8yt^UfVA!K`ac#uG<uC6ZRw};*RGm%lrad9m#l05?O
z;-L6hSXi#zzOAXGq*PL(@2+xHJFuj3dFcyxYFYk*Y4}gBwcQ7KTv?5&=_fj86KR$#
z(=&)BFKT0#KX!Lf(hPs16?;?MXt6nVY3s-I(dCqzoi9^orn+}mezeWeRu*0T@pr60
zDphLw3cEm0vTt*VMTMJta(X6zhTm~_y_2(Jx%#(1E?(jo*3V(HSWC;v7U!-6coT;R
zT<(gA{0Y#a5YVG#3dQB+6G4Etvc3m}&cM!205+YgS_+w|fw7>Vpx~}(FF-n2an(C_
zjv*W2)YX4&JHBAj1(JxWnc4FhWBff(Dwl!+do`B{518AA{(gO@#F&_7T#Oc9+6+%7
zy&Y6kR2v%`F*5dCXu2}2I+831@d#Y;!CN!#-_KVW9T8E7Oa+{!rqG!#B%L%635|~4
zzqz?t{BvWYyY_nvw<n^MlvPxSNv;cHl%eeMW4+nha8a0<nx?v)*=Q?gIOKoo(=rR|
zeH<i@W;Q*yN=`3ds&ZI*{Jx5h{BKWB>0A3T3xbqY2>Y`PgWtv5XwEX+XQWxQvamdM
zYmF@~>t-|Yyry&guY(ITZy5LkRYVWQo;iK*GIi_^>*DMWqvY!XLT_Xov)co*E_gC`
zw`IP`6BhOHYc3TfW1}C?wy2O2m3pp0xDaW_DpUH!<l-|1{vHlpjYKggFE2{5C$I;^
zika^K$mc$K)E{$W4v+~LI{bWn7e-v?NS=po^w5|gZiNwqprk~$G}Xa}cp3g<3a~XO
zfry59cQ%C0zo0+_DuUaeK79<mheC;J(b)2R{P_5_w`3%tqr&M|3sRyGZNVcW6N4V=
z)r~GLGMv^h45%0x#p4IYMn{#5joG2%L<c|4Ie@`EF!yaRDv$z)umK<%bV4A9QdCr0
z`pk8tuI^D;nGAIArp1X?F>&#46Rpvt1cwiaa?zBu%xK6jOGu1tT%@9)czNryY(hc;
z+8H5j4vPsZOG|KIzK|;cz~vF+0lDSQ>Y@cq49ettGb*nntk`kzd3;ijzMp^NbE$lV
zuwi&?(%I(JFV{O>{~9=NI?@`p*G=Jb>~dn;6KJ|k^fU@A2c>N5S7IHutz26^`95TW
z;L^f9J6zSCu$P=vXLkt;ceBfn8(-p*HWTfxE)@Q}zB}uVJWArbBKOVlst4_Xc~)hb
zEGlz{>zpIqqJI{NF+DR%sL-)e!J$uUpCJ3l+|`qJ-I=)~S)svh;~YRjB-NXUG6P@s
zkR5iPdh#-AY(ID3ED}T+DrfTa9XHykMkJlHakAz!K|wT=6)!Lf=H<1GEHg7RCN56E
z%~)GI0=kG{sZdPdEF3Rb)DRi4*V?h=I{W*luusMi)Pfka7U$Tw`1o&gbDEHAAj;lt
zBxq`e;!te)SP#Xe9yg)r<;$n>Ep*h>WY@5mF2qY|IC+j#Ig>UMfQinj*5)3>dW5jc
ztD#Jx_v1Q#JRAujq<a0*lpJRvDN^iVw5Z7#-UWMYu-3EI)(~+`kKo-1OG;`-L;;j|
zcq61~M-i@~Rz4H0y7|_N{GzsYU1Q@}%cp&PeW-^GA3v7n#AlC~clA6DoNB+rBO5N*
z6~@!O9(w1kY0Eud=g%MWtk$Ik{ZAa^t$Z=0989^j_&mawhfKE3XtZQqS}K3V2S4`|
zh*i~NkcUsTQ1_<G?^n4x^1pX|njhp<tg%m4|JZZk(kvh2N}bg2;GtsMf6NMrCkrku
z(q^kW>L~;8J!Q_PTea=ctFga7VPLr<G<>dk=<dSMF02`YWm}8qb`mzdPgYF|8*UQa
z?i!!u`)5x>Rr5uS%7Ip4VUxafQ*2Yz;=gUW(|kXy97wlYU)KG+&--{;dHLQ02Lh0K
zg(CB|rG*ChK{)aJ)QYre$wu7&UX4u^Oox-BIJ*&g*>jwg@x~5LPK`+Kk%~GRrDmbH
zKRJH3E6p!qiRz)h|4yx!3cBaMK5-a$87@YAOwVB~+*t7R{qj+m!n}X<ym$p68>v2U
zQXCc&3!9m-h2D4i+t$Ck`}6OA-9q|FScLrb<~<qr_(R=La^RUjgq|Q~3I_%UO_6~1
za2q*B#IEufKEFp}J_r|&e&EJXy~hm2OcQ}~!G`TV!>y;w^9rl0m*U>^Hsz^`8kPuG
zYsCLN_;R5?t++?<wIeN|kiTZPMQ5gPZq1jv>U8BX^XE7YmA^F#Nc2mmIJz>*#<Xh6
zMLP!RrZo!OwSN3d<GSMgIk|^+eC-U*i!#<n>8-7A90^>~m(WzN3pn8kjNW?2dF@r+
z@h`u6lI@y0?rx5A+_iK57rwz?US9Lgq(vaNBadqLySd9OVpetMG@X6I&QrMz?iy3k
zdv=BWGjqTp^T=PJIq5z{x%m&AhK7bHsHhxpctGbPxt!#jW;g*wk?HYmJU!v3?P1>?
zd3UO_g+x<fD=5FI($3+#IGw|-g4xoA<z-9IB4{}=s?3#JsUsk)|1Vxzf0n+qYVqoo
zE11t5g{r!-I+aX{`GWxi?uzCP#jPu2<Y~qG8jEv78w>U@zA9j%Vd~AYH+P|5y?Nh>
z{{fN7y({YM!hWlTMK$$D+x0!yix}00MFlmTvwz6yQ(%4O9sg$j-1<|OPJ!@}akW|D
zoaLZn{O-i-#%WPMUReqon$7Vm2K3nEq}_9ke4&`*Eh`>u@Wj{GHzDmk)bLoS;Yi+4
z(f=D9O#tSA7JN6Y66Jd@8yg++Kqv#NU~<?tivLQ-zA+h-oI^?-BV&_u3MzM)n2JS_
z%;8rrfgR4P^_Gi^7i|g95pWNZ4I}2~yEWaj_?f~AGctVB(zruHC{?#NpqyG;`@eX>
zXKZY&TacFGVL$e!I(=AOWGVL9<FogiU#RY~){$zNmRtGfuX|}E%*11CW`VnE$=JlO
z#7=X0Nk}A#cIsWCx5m$12c)hqE7s<O7mr9y2NlI*Mj0e1)bPh}1mQ4x52Eo&U?8`&
zbTlkYMAk|~XRsYQWO36PtKGCAfC>Jro<bAF-+yRNKF%a0wm|KUg_{q=t|@GC2sm3B
zCo;l~@D2*=4di6`F24xoP)vd?>oMw68nWdcJtD^(uH}~+_dLUroR*<XeoVsBu^#t<
zrKhLH-4$U&=Rrw&ZY)s2%e3vO5o5fBHG|^DJUOC)kiYg6&WO(R^NfgmlYuJ`%sR4_
zQVbh66TA6CH-KXn`t(hZM@Lt2e=a07^)Q@Q8_P!Tw!2;I(DzD_AZ%1bw_coTacg|u
z@9Nkza5Ve2E~}h_;7u;gLsM7gix{l)hf16N1nTO}URf&DvI@F-_wI2R!K^TB$<s}G
z&GPc{;c6hH2qe-42Uo@CAY3wDx|X&0{&cUuuu<teim*7|-`7I)YQ^i*vVW)h0#7(h
zj{f}Fs><PhBw7lgmcRtjG(_P*&{%s}Sq*Z;B*n$++S)XnsuBMvVqEp4wzhWI$@{sE
zrH!7!Dy|nVKmU`IloW;^5c~J<kEZ#_$sfPAkHK=j%>VMx@1y@M1jo$wmT4nhy7jlQ
zUgnMVKQ;{5htG3OH8{M!ckjnF%Tubft(X3`>q<MOD&pRMDl(^n`{W2xy+||4QEJwo
zN`)DDFTkXd?{m`yC264Cfe)nyMz`?fWKG;K0|X}yv&-?bNY*U1%ONrG&f0Hlc14d1
zfy~0+d$Sn{1Om@;Y?R+z&3Xvd)7aEh6Zj>tpx0p!kvVZfH?Sx$Ab^XL^C1#Ep8|>k
z{9e@8e*ttVBP&}BNF*UCY0>d>dYWPH-ghudASs3(2Pn6qVlr}KdH{bc+Y?X_H3afP
zix-jmvy+C#3<JERGlJxVfW;88OP7(PxxBor+jVj~rOuy<OLmu%_G(?ta?lMPXn7Qn
zlVeM7bTw6EW4Bs*gThak9s(mGv=bfcn~B6zF#4#fs_tf!(fTw^J$=mANW*66)n!(+
zx9a`3Q@5!7hV)c8v!s0vttQ?czREOM=x)YWsKmL4dRm?*Q%vQg+$s0en#N*AYKjTf
z`d5s-MmAhYR{<O0hXg+?UA0BA-OFsG!ukWRMjUJr4K9f(gqKzw?D*8j#KgV=Z%(3~
zmE?yjacaFavYMgru4v9TdIKL-IxZ6M$=J7V-221MaPH|9c|Wj|LRT4(kqofGa<JF}
zv&lPPvw<dXPA%Z>LOsRyQ-3&v5|y+X&ShL8=^{D;JOTm%813)O(G`Sqa1|?+*wT_?
z$3*E}d&tpJyIe`@5O&l2=lfrD<2P`FkM{(!hr<qKjpIE=+-f)3PWz(Y?8l#f7_Hpy
zm147pTh0sLzSnj7!bv%=l$@hMR{DwSXTgD=v$g$kF$GB!yADW@vKDXNY{kc8k-o(S
zPtLvXLmENT6y67(x8ovF=fn*KSn-9OgQ0n^v$Hc|ooF#o3!tk`agdpsLeg&~Zy$Be
zlhfo@rl#-kDx~@B&d!&meGJqT)aHD9bavwMx~+WmgAd2t#>No0j>6ll_dFF7{6eVT
zHb%j+>fnyxL~E?Cr$D7Pe0{?Ut}A2|jN$<6(<^xMMjFi0)2B~u1i#tU5sCi5X3zpw
z7h6SrQyHnJ`OU7QTW4f^1gBJNY;3VB7#1X$0Y*1KY(kJ_zRIpGW77P4sqP+X3N<Z0
zRVUbo%zkUp;1D}3F3t!aHr%ipNYG+sWmQ&HeFg0ThL@atTcqTsU&>~2q^0nFvs<j#
zwH5Z26cBhDXsIE%wa)(i-t`D3mX~g;i-x@f(qiM~IqTHN+A#|gE>bL5$jQlj`})MB
zrJJyK>%GbYKF%yIEv>>CEG8+bqN^LV`;hGDuU~CgNtl!PkgRC3Y)c^Q#y5r&Z*lY;
zIj*%e%x&n8@p3V+)3y+6oR=(jvNrS#4-fBasfE`GUSb7VSy?2zika0vVOVU{{#$z*
z4G=;pFbfmezJ!c{nw2qHFa*G)XN-&vf`|*@P!#z)Tx`*b_pPt5ADx;~g%=(<tqpZ`
z<oxb!1cOyvNw>8hFM!FPr=|j2Z^PDw(Ud<x=!!M7sIidQ&_9g_Yey0}`aSF1nhpnf
zzF}l^xo4SF$62$!mOLC(sbe=`eDeO|uB$;ZFMA3>_vq}BWd85k1hLB-&W-@Xm&1ug
zBoaN#-`s|8j)dq77;$&UBQ(qId_A4*3<vD@{z49afB#}v*t<!IDJv@vpiv53j^Ezh
z)AQp?ZEeCkS(o4Z;FXZph|_P5EUM7;BK&IeOH1Z3!V6ukh(yhMRxY+mjNtn{_azzK
z*<dv$q#?7YoI6Kd>GaENah!P98R{;aU(r`Vdg%LagmJ5474f*vf~bVY>Iv-Hd*ML`
z+UWk3LMOSmgP^rO{G_^B-ysuC81Mb9<=~scHTJ>cO}k&M+Y;$Jb2t~KEy!f={n8U&
zq|{Xn&L5=Qv19w_j~_%dC?vl>4p4J+wb(eBAF2=`hOhrTKfew6zvneHCQx<ZOwIUE
z<^<O_{tqdqG)d939rFjQ5;yk1JPK8-vfGh{mNpIPe#rYs0wzEha|`ed4v+AIJbIb4
z4GW8lX6R&Kj(rGjC=KKc_7{o=41v!c{NG+xRYzwZ_5}pzuW-U6Oa)!^C<xuV&fB+d
zCq-T0F5$3()nBbo)nN7S+!sCp0UB7;+LIMK(0iX(SLc?Hh=jQtKIOzK3e3Is#*^2-
zo$$nrq%|G;RDGjK=*zA5k{cZjW7SifbDk1@v+j1e`5S)~<LXjZu2&cY(&ttXaFMVJ
zw;e;K2pt_A*)d5;-4<Or7?mGN-uy`NLJ$56RosmE{rjH6`i!{mDprEbgZUI&yIkBJ
z+u^dkw6wIo+QAbl|I<Sb5?M&LR#@oN)z#nE)j9wEzISbHEh@*=9x;zCFva_agiJ!D
z!PQ_mbVvgi0qyd&k9h_wt4tTNtK3!@VC5rm1b`J`=Z=uUWl4&@#>$ID{34=q;i<o(
z_qejM@=}lIM3~~8Q6=m-m=oU(4ILoSa<+DMMJ4$)(P1eb4wIMnSckHkP0cIZ%Izo4
zN?+_x2@DarI<j}~I3;CoOc9K3xQ6@iQO^dkcwy{9PfzbRf@+zVqK+@|9yvmG%y!@<
zgEh1`!M=e%-@DGV`;))LxygUoDn|&V{gyv>$^q$HLh-!S$aegn?`gfSh5!HCG&Kf$
zd26rG_BYXN)jCXtB+Nj|<IgzbJf54ALmFy8II@3mF!<Wt_*@7@RKj)<=-sjXRCh@(
zS=FaXlk&wxc@Lj7SC6sA3H9q%@@LSP?g;)z_9AqDcZ%s5GWL<`x(|olStb?_pW&1F
zw)J_(*yc&i&7UVd{Hxvv<_Yl{#EV~x<Ypg<Zx!Yk?R{r*qIAwGobmSJm^1T^vv$t6
zJC8MXBm_QwrpIHXsug)4UatG&M_!OM;#TdQK)fVOiyj;t%5`{q)rkCTC-!9sHSJI#
zu=ySjm=sJnt^Ham3aK=aw*vTuas{S0^?%QPJ_ve<4F27R(tnQ9i7$az#lbv5$DnlU
zRzX4@CIJL>EuAMS%gUZ6Bz!=itCqI5Ia(t)Wl5x9l7hS8yExj-c8QzW^h%?lpZtS^
zo>F!S2kV!Y=NZVv_t9F~A3hlgY8b@*x38b&W=39z%=PDo$s2tiz-iGK?w@wz{uqD9
z@uX|R8G<<PeFTfJy=0wA@}6!aekm~f{DPK5E(g8Vx$AJZ%wb8^)m_?NVdb)}RK!EW
z0hep0riZ7VkOIv~SRV_xtFKQt<^{SRQaeM3maP2s7`rFaDU;e!`bp4{JlzD4gf=xu
zwMJ^{_}Tj~SaKoul`wZ&;L_j4c{B$pZ|!%`guJ|@t4ksrahU2Gde{qanW(GN0(zm@
z*!Bbq0j^w4O-&q?IagFq{j)6VxlY38-K(#JlGnBc>+0O-&!(N!t7h5QRKD<`qD6k|
zbN|-(2aZ#8ERxT}w5>V|B90a=89RKvz<=<WDDU^^t8Qi2S$7?j3TLfUJfnHsj;Q!U
z{o1)bWMn&MNY4n6bKB>#Bj19f$oIz~VWC#xErYW=ycBI4>hlB(O!D5B1)d<i+WOg(
zwZDEd?H27*3J#tD6eVJE;XDW(Kmx=-IBae>!)n~z)+XFT>4{+lGWgCDU^6H2H{cc*
zmX_cQe$`!Jed9)FshtrZawA}^Gu-C*1<5u_R)vN#{>!05hx~(r#!(Q^ZG9UXI}KAf
zrpF>!yIOjyWza3TZLUt?!bKz`T)1^hgr5E6s2_*NQ@c?93SLrkLCWk!$}n&-jP;LD
zfdCp;0VW_xOJf=>PpdLY)dOb`l!vi?6VD0UxADozML2Uk)_+Npod`AXQZk6k%6_%x
zSDm+MDhj>q0;s?;=%0@iZ&`JfePtV})?T)KAJxi6zv7EtV}V%FcF*I5oJOx?XXnSv
zEo!Q@P_{Gefm0{9z6jN|m3en+%--x5Urrl*eZzuZy7Hd52r~j}#Iq*Cw#Myg0Q%6h
zP`;X#w}t@p_!;x0yvxF1rrqnGz2!TM7UoU`H@s3O5G<jt=Upi;RyG7^2ig&pEW~sU
z_UCoXr(H;t)fH(2a>KYn^T!~806#w}j9^_yPUeS%6WUImu+L+d=8S35|7qQVhur}X
zrEYtO`<cX6?4JS@!~tClgSPJvOH0eUuG<m#-htb&fO7qbpcUCNW3R0T`Ku6ZN4Q22
zvkJVzNLe#I)Y84nMxj15Ws;=)W@vDvToYKBpPd_AZc}sesEjk^xR6;CK*L8)Te{-I
zCad)Q>s#sCzbcuZQ3ZUUGo^5byXBVt`YvZ1`TqFrdgF9QIrCmg+K(SwxJ}emqoKK4
z{fsLt+rzFFec!dS>wWmGYL}j@@VVn&W@<q*If6-_v6M(X0!Ro6yP<t>U<(NetxV?@
z!W`9WQjxU2wpQ%)%TV^-_lHnZV0U=n?2Jfdwufq(<fyF4fJi+Uh{CBJ1epXWy+@an
z!!6t5?1B6Nao_+ui%Mr&_ZTBvyr0bVnH)vcuz=9@zr#2fR@nhb8y_SMW9;O8Pfr9O
z1fF_u{eL%dUQi5BVleH}B3056CmD!3-jjYlB0$pc#5iCv<Gy|MREVpO--K)W`iB^?
z1R49&QZ9vRcp89Upf%shdgo;o-y)8-OoPB@RUe3xtFOGnhJpvS)7x5mD4;p!ZtD<T
z(H}Q2)Mz3|+!%NYt!`dO{L!pC6~EB8)mK(0t6bv=Dw)SxxlOpj=2s`}YzH`eaF@av
z83$gviS^95*q@lb67|NP>`1p+@*fZ%4MbwLA>nn_Zf21y&FDj^sj0J`?a$<b;)N5s
zuB)r)gS&_KP{#ZnpPZzOESmqfKg=+`J2mMzd4le_wYa>KuZa>@*vo4(TI|CFv$<sb
ziIZGRdp&;dx%pYaGIi<=UE=5!u75bzHkRuAKU`U(G*^t<r6sZ&(A-8eRjZx7H!~F6
zr>N6$RPRsXOYYjG;L2RC^^&>#L1HC}CW4(?aqEcf?YxH%dx_Spc%wY;#>@<+R17}}
z(4fOQEf7^a|Ic)0XtbekYdr#@^?0?5%5)u7!ipn(vWDQwH4ZWB0Ncd2baj1*-t)ng
zf?((uxqh;WIuw_qAT*JCn6CEH<MV6_kV)RR@LDK<YiggxL{pRUE3*pPDFPeMgvW90
z;B<MHb0|>{!v0*43KqyR9Ep3Bg7Ce|HE!katyM65hu;3?DM2qKt%JBBe)YNbM~s8b
zJ3P1Y=VP(Ln~08KGebnj!&91@?_w3bWtLQlCErR9X<S_W61mw{c3DS9*V-y);9`22
zgPQaBm!QCjt@flz{1#aV!jU1e)Zkpu_s+<C2J2P@Z5Cw4BVcXu#F6f5*Za?e3@}U)
zL&HG5Nnl|qG41>7D&xLFwjj3uT)AhczNkZ|byqln`Po2d>|57Iene-@(py#^*8cge
zPE-chEBl1SJ_~pjB9cGEYHqIR<7GZl&wJrXV1~Pu_yH-MjesiW)$jz;=lUcUGUaH@
z{^HU0^MopY9U4@X?-tTAT@i}uDuQ)3HYK&vxBtbVCqH1;M&Mj=y(s!|2AqHrXBIzC
z<9GCQ1kSAU%0g(Xwa($xW2Cl;t6=LObe$+fza4%qBV*If-}-`A3Ny6Raf{`^A-yx4
zS^8BEHrX^Z8oIbhRuG$QkMwq&^te-7+J{z=30N@Yc1qzf4Hk6h%$TY;^0j5+e|`)%
zpsxGU!YMKml~D5V-&?OMvYwBt^b2i_n7mSq=LMvr)u%d+HIEpZRvdHMeo7dRdT4H)
zvE?GL<=g2}c)PqSA2qM~(2g+@F`6FV|K1yi0rap2uSAbAGOGVR@}=D~zs<*+FS4+*
z9(Bv~DGGe@WRDR&#UF397_DYQeJa4g8t<bn8?Z^>TZ?(q&wR5S=GpvH7%p~(HoNEn
z-dIDs|J$JBuc0WoK9<rt42`eL=h``<Uk=}I&@oW5c@U>O_kPvaGG+&~IkQwSWqtn4
zHDH^t$*KNQ+3oL)d?gf<9g{`U4^w)oTO1~FB7qXOM-sq4*&iLFldHX|OCk+!GkvQ4
zb7az%g=+W4S+q>8Zp-;Q7r6KI>boq@5K*d0gUcEi?MRvu31MWUZXr#WZYBSr@TiS~
zrYGnqkwUsmhu#hj#-d4@Y>#jHm#)lQVCWZ+V`G=gv#0mOU6Y#eFUi7(HwH}I+}-Ul
z;31G4)3}d%ni_=L*!M8*dLO?<V!GHB|ByVpC<<@chN$o76k;VF$INSmu%CF3(ay+r
zLDCoSV?ld%@nTpE3v2PcmIqae25<l2;SNT^UMYIzp6kpb$wJrQTfsl0za*xddep*`
zrkuWrc>kh)f|e*q2C`|VtmI-eHk`A8`yB+u!ft)6E@GGQ5&8U|>}ROq_*7!gmmKdk
zKU_VlSXNk%16N{bm6K!%$X96O<<0xMaP*H)WbHMRouFZ;r%3^eB%%_J4~d0{78bUU
zUaHGLZ9{kUvn8Gw5Q)ZE9FGq<AZ2^`;>DJOl^9qgb$S|eJus8a&T`c@oA535Q(?LZ
z_SPf3yy0+l)C@%PW%)_m=p+Ly!q~5vlvII0$GH3ZgW8-A)Ilp0?|-Po$<IN$^I%^7
yB)XgV8vXYtcGLfMme$<fMiOa4@h54Eioz)A@$(j&NIWfy?7Rv=x#09Q@BalN%vKu!

literal 27367
zcmb@u1yq&Ww>P{o0TGc<DG^CQq+37%>5y&^kd)eVV~|QnDlOgJjdVyzcXvuj!#DT&
z-+RaX#yj2{W4z~#qvODiXRl|iIe#^`-)kAs+n7X{2n6D`xR|g!0)Z9?|AnF7fS)`T
zZ~g#(-O!U16-Hd5{{2yt7K%VTLWm2$RCJ8lm~?QJUM8#G>FEj)rg$vmOVA`C&l--I
zqotAJ8&wdFpYkdzondTbkSJxqxMX06mdK^W*As`_R|!M#Z)Kf8-$Z<ym8JE(q3d*>
ziZ&znGI!50|8mp$lug`njA())T{t?qC(fE$M%p^MCypTgvk)%$%UBrK2S*S+Kx_{F
zOt>pfB8X1T_SjDd9xFnLgg<+IDY4;sM8Qq)ry#|D`y{NXh3<yN#^a5mo~earulOU`
zOmJ@#a}3x$5JV?+Oj03{lao8!X(fB^ad9TSrEDx`YD(vEwsZ4vdwST879QgSk6FF<
zRP}vQQqnVfhF#ic&#)B~6tsNcTF6)D|2LPJ+(r`^N+Y}5FDtOK@|!}-Cxr3Jl`E>%
zj?A+0{DbgrzIuu95b0<R=C^G)f`Wp!q!P7U_8SlMTLTwo8+|IVU!luM;UE9=(X0M_
zIRd{uclqldOd&eAu;7`K!?3lrwJ}-6sZjC$Jz`>VvY@Oi?cH#0wnkat)tlJ8NuqZi
zQ&6yHTCVgaI665YFE8Aj54WTjJHj)RbBI3Oxc!)#np$YI$f&0e9-66~Be6b|qgHB0
zD3QYAf$fbW_*RI9k^8AHtf|RRHenE%K&r>(#rNpw`So?l<?h&>ogLkckpct>x3%Zr
z&2fEGQ;913&EDbR*3Ql^m;`h<BqYB+UcZ%JT&!4C`{h0(?%lgT;c=*|RLRqh;dhHF
zc{hwpK+rstqk;BkZ!ZZx`vYR)`K_(MxVVQ3sZt5Ht9?AYhOkx=$2YFuxIu?z@aD}7
z@p#&|Z{KiVKjd>}YqfSe*_XT0p^zq%5kW;sNvlz6mchotA}=B$LZ=`vA7-~cq@=E@
zO551bptuNkAPjyX@xp1jo3vzIfiAp5B!K7%+G3L*UU)`EhD3^dhLpIt9EWl53lj^A
z+%XQfx-yGNd4?+Y^UA(~0YwbjJk5%b(@)7CMn+VreoR!@EEA8$<0RIrk(Xt@r;&}z
zH|eL=)YLSdC@(Or2oAn0<bzGc%p7b!UW%M;xc*G5vgyxkV}@o$VP;HG5$nT;4~d4q
zbvHG6TGk%l@DfCO51-q@!b14ftGf>$c4sK0mD{f3Qiuj7ON7&9Zjz9YtPJPrxRc<L
zd$vVPWM0YDs`8f4pyc7<5xRm<43+Wn_Lk37e1b3?%8twk{I+~wuB_IUgM$MW)ri(e
zR~PMttu5QnpFa@;St^XJ=a}S8(U1JDDw2*-Nrct+_A)i{NJ>hc?5}=;{l7-eD=FD2
zWtW_sY^<rngNGMtrVk7D+-dh3!p-emYF$T~OAtMHni7dn%2K}GXK`*el26`P85V}G
zUG4ZGBjd^C+1?#QYY<tQ&2l$khgP}O%lVT5153+0^{~HJ;huZj>FVm54pVsIj6HHA
zd2z5dSWsHpGCceZ-V<wmsXO+Im)CWp?wFtL?HE_DUcI<D-NrJon5u67aP=lzuB=u7
z5qm>#?^jr31J$^gm|v;V(F3`n=;Xx-BbrFp!%2t8+VeDxT32qk0E4!#<olcB-~8}s
zP)lULG4eB8t;o1P^){?GEk0(8KjEjKpgVDKagL6TIJmeChtnSM3H%fk6eVj4D$Sn>
z2-!{XzuaTc`!n;?pNJjPOYrCZYQNv-&mH~9yHLbx+L<*gNdlw$W##2V<TDiMzCBe-
zWaHpaX5eIEdL8(HS&-dU8GalZ5)#I0)UBwlu1<%R0{>X=ul(+SJ57hS2nSKoU@#+3
zE=i<Ay~NbuGjC1pzHTWTvyKEIA4A_NSm+KN_v2UI^O)pQ$pn}wyIp+FB>4EAp`mym
zK76=t&(;gatlVn$%J1L5xp;XM3iO)II{DpB6xmN!p%NJ!ZcR>9+R+amWXx|(R%zC{
zMvj%d%R1qoN-i(wl9HAlt*|jlb$>`MT##QlGLb3&Ei#gDyXH_kVtsCI&UmztDmORx
zsb=}>a5g<Xy*~#BUDoAhG6#zyus(Y+uAVrL87Yy*^{}5=3_9{{SLG8E6ITW@@Sx-w
zY>t&oR5=6<W~r?62*dt$2;pKYhSRe2E3$Fg<Fczq;8LnRgvzA%2O1QSzO`^KXcUU@
zptlwlfn{Z!Q&UrLEOZSGz2oBiP45ZflZ9~Y)=x}m4wIvkHxbk5pq}vmprr&q-pi#+
zk#9fVTjsW2K!;_09_agsgIZ)*w??jonp!pDiBK$$opE0>hIAC$OC24ZVO<RJ&))^(
zx#FHXHT0!Os#Ta09Bxl06{k=sz2nxiFnNU`siEa_DAG(tZAJAortX5jK3O~z%3?#m
z4MM-gKe#>K6GvUa7*A9}0+U`PcVRs*?d!)74zh!}8f>i$^{O{A;-{&Tx2oC;>g<bj
z_e3Ht|6J9PiE3Jo_Xza!^UD>&6U4XnDh#4vV+*@+o0!G$m#Vt$diz?P><sq>y*LqL
zL6$s0(A^}pSr>n8idGiO3s=+O+^$GgBU{oaoW!s6wtn+%!4%bdGWv50x}&*QvCi~Z
zsHvv=>{PEud`KWCyG__0bQ<_ZA%$q0)3STJ?lN~h-xJ46H9>+zqs$`3E}CP&9%-<}
z=<!A+B{Nruj;%v=oXOx=ea!yy!JRvI?lGt*uYZLnC?>4VbGe<cxt$&)nI8rbG8^23
zlQc|Dz~g*!f))MzYL@jPp@94Ia5|-i$w@8L%3?+eBAb!hQ+&|hkk(G$W<!m{`r0TC
zUsA06L3*6*Z_>Lxg!4!6xrzDBdm0hTaJ{*P#g%p&40Y!HEX(x%dN23$n_t7ilGm-^
z0>nPZl8l#{&-W&L@{i#V<@s46rZfHicTw$pckK96wL;<HS#)yD;486QxVX3v;7S;H
zsua>@c`LEg+6w4Y;w(OiFu9#zU7R24X!%fh(o$mD&K;c}PGi(L1YOKiukwUF&N}T4
zULhpP*K5Yq@_GEPhp1NBGX!XqHg}Z9<O)40lz0%`yVe+&tyZNxoB;3VcO{xDPQar(
zI7!s0Oxi`uM}C3bWIQfkqpaL|@pG=wT|xXS*Ex_e0v>S-$&@i#ns%fT!77av4`Dw-
z8&&`3MLxibeEjr@ncg7KV07-lTSKe2e>hEVa80wyUiv>C5y$T)@#NMmEgw0v@8P90
z?V&W4*h1)X==dW|!C$|=PY4dqZKUPE3h);b6YB-w<SY22o*IS1t}7%swd-0;R3Kv&
zZn}xfNF<gGb7}b`S+D(I6!-IEdpE6ydK1r<&t`Lu_XvNEY>|rj2c^j$5b;Qos4&LN
z_hrl%ua8FeMGPU%{x<5x3Aj)L){~<p7;QoxoN?pM&l56jNjhT@rxbC0?2grKoU?RF
zb9$#Vw=&@H$Zuzd=ZiQx`EFtxb>PZ!4<dbQWnbiPnj#(Afb*hD)*Y7xO%+o*Oukij
zTtR%PS1ic04OX8b_nT;{b;kVeRi%5Q)m~4(b9qA(=fAW!@!qY=JBuswxx?acesBNa
zwkpr!Evx{EUYnz|vjx6T`sJQP%O63ZomKwdS@87n6b4JnKIY|*x!fTC#uywECKeu5
zvbxD0C$e4gW_18V^SL|z`{vMAg|rX18tdZPKdUMDe(}@Yn7E$lyyflvC-e|2SEp9k
z)eI|~)U?m-`+W;@-t-P*+;2F73*R0emz4SkFr+Z#Ao5EYf&#RzBP_0IEs69lN-b_r
z*ESPeveGK_=Mq_H-=52!e#yW7JGk}E_MUcYuIgySa((HvDwD3iX;r6@49ip!>nx{b
zZ>bC8)b>DtOPOHgar=v0Z7v_J@Jv<Jam4Fd38fCD(wmQt5(U2X#K{lZG+$!H+ikZ^
z_7WE#u6${w(T6=_w6&spR(W=*P@PGPy27-_PR+klrXNX3NmtmeagjM=cMZ~yl1)}g
z9wtzr?ioJj^^O6>7W?hC6ouCJ#pB}i%TkTKZN5%*XD=%xln_V8f6)0?M?UgJ5A7V6
zNs3F0Q^5uBc?Tw%nzu@w%F%^qe~(q}DT^*sXh}6w=MxfPF&86qKi6gM;<1(M%Dbp6
zht^U@&`ytS&cwozS~l#c6z?S{8^m*)=<eR!^}Bb-aGcq{YW!5OG9Q!)XG72_=5+tb
zGkQJ0d1AUrv)^GLn5Vg9uEMF*hhSo2`k_=7M@d74oISc*GLI|hd!|g8$5otQOGxi8
z5!RN!!LZkdXliZwGh_b%p=3JLQEZ;Ze|2!G=R98n!BrP}Y!Em|8hc4^qp<nUWwjIB
z{PTECE!9AzrDZfig)Ur}FW_2zAGIZ;uIt6q&GXkB_5`dsk`hub*V{Vxvg@8bgYIY9
z{0vE}puoyd<v_1E@7yP_l6PIRt$3^VuK?Gd<$EP-Pu{6uh`CJ7E2%IZU45fb5Yn=P
zK`!k6MA<LN%<J>>N{4R?3vUMtc{y|UX8tk+tY^+@-lx#le-_IVr+XYrJgj!KXml-(
zJG?7`P$_HP6N>nKS(5hRt=-7bmDTnBA0{>d^LX&t<+E``yUNx>W5Sve#q}#(mnduN
zEDe|1UVe`X?<>!R(`vgZ;F<qU<=B0UQt--EuHy4MOF?8_wYB`4E(cfZQ>#f49_FKB
zZHtnTYftnQB4pfd;yP1(UF@%$vu|T>u=FZKX549YJM2v?;$6HXZlQ-#^0Hu!WShg7
z>*xLRo$(sdy2<f^r|%>?bIH(5?x2}wPJd@aP-%Fa1iRIlBYyao+>ZAs^N+IY7f~8?
za0ybkBhGi&L!B!ohx6^owH=Z}s*ER3HZ(8sTsZSo7%Zo=$Qo&S+FnU|;XJ;i4YSM_
zWv8V@r=g*_a`h_G_SczIV`r*teD~OG;$!zi0ren?HF3(|poe-oS%K<#=uWXm<*E(2
zTFv_mtQ{()t@XW33XwFI{0+%(#ib-_!_E169#fPPka#A@VPp<ucWI>j+9QdsH1vP)
zB1gg=sMoVrYa|l+Ju0fuW?6>EA>tbwrW{tz(|i>YD#-{+@@LO<);JjT{hSCTa|Vsf
z^dxeeZ`(ZG+hrvhePV9%%B}3Mgdjp>PG6sym9@XU)(gi=^26qQeo4uqc#}S0OC256
zh0#zCGP%-?_0VX*NFz<N3k$+}f>&la*~#eW+3@b;b)EC-a&gy0a$?*f$1H=s5EC2w
zL?IPxIp`SGp|%_Rk^u5XvA;`Qe+^CX#RqAUlamu5TV9P-7Xx;*ucl_TJm!{$@agI4
z|LI}ZFwN!=4>-&oaOPe!bZ(O|?)k*48^co^k3#Z1_~gRmazF4|tF~(;eXvQ@*j+Mh
zLzY7aZR!$$UhQv;D*RiQi{(N96lkj%FFRT<3#i0SY1<K4YhCrg{&QYv@ZbUdNbsnj
z@0HYg8tj`lZ}O7~#KqS|ORt2#(DG4uEBw5?C!~FTb#?Y7z;IjAK%7LJCx85|z5xJP
zY&`WbGTyP{?JIR0GU7)6;Hw1%#cvls6I5c0qRX}6e{M?1%j;<gAkHt$e{=HZBINn*
zqordT!vGRt+Xa1~q+cqIqg`_Ra1xDa@%^s;fR#8q80MGSCve^R9r?8$q2;5v^1Rx`
zhmn7)BZ;>RkZ+3hVn-#mICM^es3x@671jnaanHpYoez!*r$x=qS8s-dhS-uSe@K&(
zUW6L`VEZ=)y$x%39Jf%7^MNgC1fVWDMR+U44Ec@GqG(1M>AB(U`*VXS>}hv4d#nuw
z&|WUf>^bG-K8@uGzHmFST4=kwv9a;bGjZs{^qCG04kCH%=zy^JU!K_*29gLLODGwS
z)v_K;PBqpl$8w%X?0%$tMjbUyK3ooEo5uAJili^B|DRT`Tf5Kb$UT+uJDP%X<x?ci
zY7K6w<Z9{;W-6IY7kpx%kGS&2*x0imBO{Q)wFq}^UQ9|1@gqBjL95DEcYZ7$MQ;Ns
z0CZA$@gS446w<J7-GBCWw!zEO#|Q7h12JLYYXt=bmDrmBEF2sy4GmXBMMXC@H%nN=
z!*K+wGsP$azbU1^{s0oe3J(^!Cv737)^a(hE0ZDrL#5~6^^pISJoG<((p9aSUsXhd
z9)eCn&mBR?W%UR&gVEf}<K=j9F)`Z0aTU1sKvG`ADs2#~5?+Ifz*$oC<Hw_zm>6^{
ztft?;<>>8h+`QSJDovc2lvKokckiBeMTJx8`sU`Q)87rX;0b;XjtIl9DCA822eYza
zVNFev)YR0CiHgwfSl)LjGUUPug@wI3$bn3yFI5iPOBsQHvI#~vL16e5%j>YKSO?3P
z-AjWVTm<UPI?pw7;ky*E^Z$*0=EaW$?)DV}kNRJ$&VhMuHIb!~XT7&14S4X)D`DZU
zF){u*IXV9z&bwY0pM@4Svhr#ZEvIY$L5ZIKtyK49zY*CQKrE`M8I#+H1Hw&GFHInD
z*;O9TD_vt_>bO}rf?1eubG;Fyy!Kzeetpps$7e_SS-IU6)Ial3{=my$QS4vDLjg%+
z$;5D>IJ)EhN-*kze4n-xw0cxmS7SCY#3qRb0ma1Uv0D=!Ei|x$Y9RRbvERJF)f-s7
zcIbitE8B81Fa00#MS)h3=}yLDORKG|JyGWoKUL$R0H-xmDXZnj%TK<3esbY^fBwAb
zj^U2sLS6x~lAV)-w6$#-ACCsCs8n%rerj~wo$j=^^gCOPH6%2Y5Xzvy#SsMp1T;M$
z@5dv0(9lW6NiMmab}4=CkSU+L@65gWyD{3xyItKlS>>=gn023kUimFh;Qj4s9i^?A
zpP%4^d1I6EeEt5tEnl~hiJje`FIgOmm_tgbdwQD8!{buw^fm^@>_~xra%!r4lE`h?
zj5l9^;*qXh<IG>GicW5w);pc4UT#Hx=i&1=7iY)ndAv`b`h&i~;;^L&kPP&!^73*k
z&?~SO1%-sv^53AvyZt3ZfclUOsu=15WciOhy>Am|mec|JjsfKcYFIl^({z=*xS?@M
zPaG$ul{~Io?V1i?!+R+fczAfV$4kWU;s|GF=kkh*y95NU939IuHCOvm2zl+Z*Btox
z_-aqq=))waP7k+xzKskJfaurgbH|S86I9nH`+gJxqa!14%*<kRBSGCkfKZWXfQ^lv
zxe(I*`}bY3Dx%+1kwHS}3FaYO)^GImLN<9olsj>7u50R)h<J+e^~p~48nBiMe;IUg
zTOnMZdlThIivGg<d?u9ah4EvJ!f6m>#a(s|5N$ccNz|>*PwYTnWqGOrB<y|Wrz+6W
zJiWYvffCZ;;p2xH^ugZxC<U(sveTbgAF^Gb)wuZhO}`>p)e7HY@VWd=Rx2_@uvtue
zZ)y^L&d0a2x2F$cmFv;04~U^g=|EaL5ZNFMf`C)IQwnm#I{wLQ`Sq7s$~pN(MM*A)
zTbbi>UD2FI$GeM}Ec2~F%M0zHW@E*EAphzb8Hv`ppT95mLG+iH^xsfXQE@+-y@^_M
z0Z`Bki9sIAOL$#7(HY(I@#9A;YwO1#D6y~6<^kFB`|>5p{rp5dLsmgqSs8A3zU4GO
zP`nNhCQ<J!6U(C(;c<4v48l*6#bjlqh+fSG?C9^2k)WhRq#eQCZ-EQrwwienw<do7
z{(T=1?sy%xl0h<4&rm>@OV56~uR?O&gdh9Xty^QoCZYO-@7}$GGoquR0-vS?H}qF4
zEOaTzAHv;l`Jo_}iZ44p45wGY{s%k&bF}o=L@xYZ?EGd&`Vs1uoOSd6Dd*##G!<CQ
z3Q|jb|FO>GiIX@&yB|9bBJtu<S9B$IQvGLN-$&fsgc=$kqyVRWjCoGr(-!&9Tf;s6
z?+Twg*H$@l-rCjtsKM)2h4X=F;P~>s>EDK0H(_Dn(sdvgoKTY-CtXS4EVb=$2Mu>A
z$&Hld!BGob2U$tM%l*cS9m964_k#E?^eM1C{}&cT>~q8l=;g0pfBnZ&c=ALXrC8ZY
z(fH|~9qm+(<Ur$Na7>a7yak<bf1w=-s}uD<wLJcdo;LrD#M{&JPdiQg+p1c?VNZ2x
zHA}y3?isj{du|y>kf5QVnN5`6wY1!R%1JAicn!qGu2Ml>-YOCY+VRf6PNTK?AaBm?
zE_R}HyYzHg5IjB;y1BVYe0wHcVmg=(Z66w=dIo3zII_%a^rMf@&D}mta%&nEmXLUl
zi^%EHv%t%WBB)=9X=$S3Me>!{()g?Z)tiLt5cN$1VG#`KeR(=Mm3He9-zW>^Y4(ul
za`?^7%{!ZA(=0vX#BOd^C&ujF%GZ%|an%IaRV3O`QDFv!g}vRHtZW~=brHk8Ai2%&
zmQQc#6V&4XrI<p+u7kh_M?K%=&;lBTBMG5jtM6~yjd{NUzl_{Q+{dB5HxEb4fBAg!
zxRB{L>{6}JyUzY@XdoFAN{(-J6sr-oR;6u%>7>Y6`8GPJUQfh@@Ku!;J6H`%@9@`c
z&Vl&EX0g!$dS#9rX$Y6_2iyk_+MpNNl6tF$goLb2*9j=3N$WR-srkp(eP<cssKk~;
zFX7@EZg!cEXLHQEPRe8Z25^O`CB2^zJ}tbNE;I$`tqe&b0eb7D=2E9fQc{;Yy>?uJ
z#=n3<Blo`b+B6x9_&@k*S$Cc~WZ%dAO!(Q+(a|52u{7AH#AbX_o7;Hz@h}wSnwplo
zd(S_k#l<P+Y7(lb43m_#+cwLUS!ls2`eykOQ*MNm&p8YL0Mp8sJf!)-2Y99+{SDa|
z2`v@QN;?~mO;*uJ;Db@@kz7c<+UqpJx)C8E4QcW25{;={$5t~;DA8*O2qdffh5Q^I
zUL?PpbGO0tYbil|40`44nU3%*tPATXRJ&f6h@g8lU4W-rY5N33)X|7gz;;ovNZ*<D
zsYy?<etdLehgTD>J^FFls%W3yo;_Mr#6SU(5c?(oq1L-Wt2}Rf;gudw)9&xDOn5MX
zZb$L>@#9Vw)WXkgZ2W^%8r%8+za#CD;ln<@kMmY<lFI#fvprR#miw)V95W11#?0z!
z#yV4>?Ml2y`tSlDn0dmrtQ-vDu{WL_9UmK1XoCxB>bSdrfzoVE%|)TWG!e_C*pps)
zrqgY$mD+R{2j@{E(#!GH$-CE2JMaA(Hx@LGPLWo7$nW}nu~N#9f{W`r^v7kF*Mj)e
zfO`?UyMl6N527O|IjA{0?RGovk`KI|NFzkAbNVEi7I<}LZ0(bt-D1gQP}g(JI>~nV
z6e}_|!Qt6zxzY1UNiajJmH)i*aR1Is`2O=C$!DcGu3~-q4@R=OTHU!LRDl~}D6G6t
z-_Sv{Zf)O8r&b%NiS)ff#l(aImANB=A#45h?kfoimdmMIX`Tfb24(~A^an!4e*Kb6
zO3RDak8JXEEQx1!x_A6Qh(cc?DsoY^C3!(3jEO@oOGbJ@G&=6=RBTiKq;NPk)bEx@
z8}c;mZqO55GyheMQL;{z44X3>q1gG%+o-z$YWICq3jxev3n-3?hN=MAKJQS@V`g%+
z_txQ=GYfMPd9or3rGiw5mh!TB-6PVe?IUvbsod6FogrN3MHVW5Y2)9`vE({3oxLwT
z-u7S*x$=JT^|^zfH8*K?A+2O`>{Hx7=)Z80C1ZZSj&>huI`G|)v@+kISsoOzEA<6(
z`YpdM0(ZkVmF(h<T*yFsqL};XhJ}S?JW<Hd9T2@xxq19M6~k?!f)w{xRnGYQQ0dk6
z`%Zfx?|5jI=h|zo#f1`5JjdYixRF)3c;r6(a`3O{;nv%dL#)SSDFM$-K~DfqrN6VV
zgK)GQ5eX+MVdJ@2ZOt@g5M9c>)GEo-`NlZc6W>p*exe&hW{_>p#-BT;_y)HXI0C4s
zKa6_fDzO&>s@zUF)`#<GC@DR^e}4dU$Yi{f0gS=HHTTbZ%tIydZcF*+%StcCzD|WL
zynQ%<G5<4`=}J%BT&tV=$~rL)@%hK^%RSud4qx5sE)v&bq<n+s^B9PotPVMfhA%Md
z1MRZZ*bj*Z`SG2dpMUXxv&{I;5q_sotMe(YmY=yN9`ArMB<p@R@}$=tV64*kwOHPO
zL!<cofrEQg|B(e4*Flg>mVG&%7s>n^4W8Q0xeK?)nON?49GUs&FMiZOn=P*2L~i6w
zf<$I~MxODP``A(^mFm*N&dPRM2Be|zggwXUygI9k5nT{@Z$4tDy8a?*KHfchPEU`e
zDGG-yFH<ElDsu-pSbBw(tQBzR=ZP{YyR-d%Srp#^D{O9ky>n;26@0JRPj~o#02_FI
zxgGS1`13mR5W4|*_U5D4>Rm{y3b+1n50P?<TIL}U&&%;zO1><!n(ZC^<clgc3F@(|
z`d(p(w@9aSW2UcNKjwh9t*8y1<Jke)4|P(bdzRy^m5s~Bn_Fo0YIUC?`8VR9Uwl*E
z;v2O(yQ1T9iN~=>kH7&P%P2Sq^h(`xK}&$N-XbFYaR&_3+dN|Mo=wfd%g0=BU<C87
z=@}b~RmHg-jjXel=(l%qi+_s>X<+<P_bNj%F)gnr-EyhWah#v$05;Jlm(i^~yH<fR
zZ3oRgp;UTot*+MD#l=^eniIs+dC#t2zs_vEAO={rz0`ah&^`|$I5=49JJSc~R7}Rb
zk1mep@8oRcaXp;>_=t+?x{#32+=o5U^O0gRw1X-0&!<0TZI8;y5UG~o9r@BGlJqS-
zIv;}zm=Wg!(VlR-5mv{)#OLPq`~uw3Ui93Jm(K}gMa0e1%$C{Ex3{;S73tFlOub9U
zQ~+P(u1-%wZyWlsGMUw8-*tDL3at07hue6^E97^!JkffSrEj7Pp7$Nt>=h2{)INu1
zJ^jeGAP%%&nniwVftK&^B`vzeD^UW3$LT%9rt{wfx4h!r!8I-$)+0=nv!1sVlk0&V
zCX(+0#=dUZwGO5@WoZsZhhAaLG_8M+=Knyh+Pl(xx;7SIcdArmq685lA|fJNyCw=C
zd;uIQtZ$`GawI{>mv7z}i+ut45a;~)XX(y+ObJ1}=TYo$$7Sioq?Pm(6NSCaL95F-
zd4zDRLgJzL%bhLn4E}P2YwZ#Kq4OXzPbKzc&J@*Rod)IM_C&|)H1lSO2SkJ!?wpMJ
zz&;=-a;I@S)7`<DW_}<+=2?Kv;NLTg&`2kffY2KYTQSKlR)?i))9f+phN|EC*&6bA
zFDecy=cCA`#O8d1f{Xw-D`qJN;8ID<%*@n71i)!$&MWiR%I_qQ7v6YpLNLL~!J&0(
zDh@3DLW@ZrY!a>)K@a(S{r#`K`M;(&mQqeV&rc82fSyO{MRQs{gvPDl#^vJZ$Yj(_
z0`&O<K(e8sAub-Cxy{Yk*@evh)Zq#j&P@T+9Q6{G90gi@KoU&O`zu&wS#f+WE#Ltn
zt*sk|hVD5y97<W{lR(1a)6F~7&!5MDC#`F49=pk`oW^fnTvATF-#m;J$whFgZl~Be
zr<XWdx+LmdiUck7t@o~FI7`o;s@e}|XNS6P-n<d(^N6kZ`d7Nl+lFs2NI$8CtD;=K
z!nq5}?t$Un%k<AQCzs3pO~r4$?J#SqJrv<YnQhQ5@H~|65w8sUR@+wNtO?D_sH$$5
z^fCsNdxI+2EbIc+!QDF$g(-ADcRo2-7d<~Yz_@+e05mL=uZ>3|gRt6N5LaSBaDk1x
zIbPN}Fc4<HIR;8#(6?{*3Fs6bLEpZ9>)sm^llJB>_x*f*-<<y492p<)hj4^UJbxEh
z;{bs5AQOW)Iz2Ut92621goMs_)5)KoZtff&8Ug7pHvaulx6!-6<I<g4I!ahf3>^d&
z<tpjC{vR)|B5q)lv^h+>iGmWu%ye}5WOb^B7xVy?a|nLO6d86o0yBdf*g7#m0zNX2
z!<Iip5Fi9|y$^Q_IP>aA0R^D+%=2nz|G^wtVsnOWsHik^zpt)wy2abqoZ#-AaetE`
zUG5DOD0iHr#n?e^T+XYYEVQwu?g0O!PtW4{GuH4KG!h=$GfGpk>vc#Cn#We>=cpcE
zp7OecEX7u3xYs$(8ON>n1aUmUuaGpZ;HFvaP{~a^IRxLS_$1$F?QrJHMa5^D*aSIs
zYp1&hPaAh#bUBMAmr%E0;gmpBQ1A*dhuIIf>};*7h~G(~MUFdq061GwEZv=N?@tBj
zC?Y`*rTuWJxE!`f>dtm=0kdVLk%^gE>iTt)2~>+(w^M5nIIC-FxNTQ(ZWFQ1%>10N
z!-6~ui}@Ja#o3;$VNYDwYJZx^@5JlxhO&Q7PYbA+cXZT$xN0(8%Xe{c0XO0bgjaa%
zH`-#jZMZ!6ZCWP)m7w3cH4kbFaGw~U#MWyAPoluUhPaQ@?t)+D1_%YTD!C*;G@GXd
z)&&gh*7}t-29>@p&$s0ezeMw2oA@jjt5L9-M)q$81+#r=Q0A}x)*u!$o8=ZeD2e`_
zM_h^Vq6PZrbb~z04pB2R`=zGY7fajsgCCIHsVA(vx^E)?jbD1LP=C@iV6HfCG2J<L
zX8-5;#O>Q?Gh->Yj>r!B%O~^tUPTv%M%#qs778&awf?=xsoPl|Be<rsZ*;t$$5m}4
z8aG#%Uy3#}eL8zqVn6|<8lE`cu+undv4^TOyL`yx>FE8vy?NlcnTw!y35$v<<ftz_
z;bPP*uTPQu_JH4&E1drFQse8tqDPS((ci!S>EfJD-&$V<U43auL{Slcc6OGiRkPC8
zWUy>=|KvYuIZDxm(B;~oPK*>8-4XJ}`q|O(xyI#?#cB5~5r>)Ym(I&+pUZ`IJPz|Q
z&o5tY1rT3ex)=TbGEfHT9-!8%P2K2E<~J`<(z@=%A2^YzR7Vb78tqMg;dR%cB#LRQ
z_15yZSnv@^rN``l<p;?5;bv<v1qBiF?i6IP0ua9X8XS2xv!NJFu(tS(xe#gCCw-lR
zelHocBAFXP(`kZ%b7qQAWMm~r5<ZOgN1IW5doAA9>}8$<3E}o{LN|uzuT#Hp7|?Jo
zQ^tZbcD3%izhJ_P$fyq4Dc0j^6_vjh+Cg4QTRi3c6{RN#G2(*~vo+z$;jHfB1UDs>
z$7)WK$gVrbaj3*hB!@XsPrN|d%TG53G8BBEOcsCyBN0X$yh!%e*qHV!N5i^OU|{63
zP<}zd&!d!Xas&t|h{PmzGLe;;nI95@d0U)pY;3Tb0|gU)K$a<6z2tLm?`vQeZ6Hz_
zL+}o^x9#RwIB3Ag%`tYsAt0JTO6l#9TA4*GU8yaUc#wYHR_WNS_Zw<_$--@+mO9tX
z$^68<uuIiVdhA0JblKd{5yf0o*Ew)}W<O7DOUy;W=XQ0_+{YoR%&=pZJ(I<)Rq9QB
zIU_SLBR$vWms7H*A&OZRSMQmP#%863RNW?#nP%2W-<lK^2uf@jKll?h8=F;n-;=|D
zigS6vpli&*@Fep#is_~cV}SoE1K#i||NdoJsrBBz{c`Qq)qz%pK|hFTNv&J(?L62q
zDIHI@(JYZpa9up``FAa1yZSPr`YEJXK%gve*w%igS^ffgFT3f$3^dJ=u`!4t3BG+x
z$!R(D7BWZv512oK9^MB>8|wh%Iv*%GAY75sDQEk_4uoaWtZ`-+sxawKW!7)O%GIn8
z1iB6CE+soVyFvvBVg+ue_K@^oVqt0M=)mOU<b?X+*nWI=Z1bzD3l;h5j9^g6lI9kd
zkkA{>)ym{}o8quNWj0kE2?q+C69OpOQsC$mO2r}IrIVl)vsq5X!2MHNcB%Xpv;#4#
z!Cb~Xa|TS1_I==@vM%{Q0Jx~gU6wl{eK>iGhWr`!y7gi~QC@^@a#wGu#q)BTXp!x*
zg=m6xNLf7Imv~f4KyUECYp)P0&DI1u`N=UW9q&NmFOM?b-Nzg!*E#cU=xR*`7TP;i
z$!fnI3yTHfHY^7x0C&^7d3tyK&X@iRw==<9pAl+sy)XYVJk2&Q+_dWHLJl_7PIKfV
z6F4ED<zzS5Ar(8nx`#BTM^aK#;}R1~LJSAk`VCgYUo&9z{fgs@Ht38ffLs?;<5=Bj
zI;Bj66=+yee)EgtR8g;K@zv}DbwFk9FC^x)c&mQz-n|>iTGtm-rSn*rnBD-S8yOwF
zOF|N35D5jp&}q*Qm7`HFHN!~Ox@`{WL7|HONDrRKb}Q$oE9ION|5o1dFrZhIujvpZ
zz2WUWkgXxmieimcR(-BwrZQ5~ERF5W?BfTWX&x!cd<>VwyC;QbW}(!`!OUTt-m@6W
zrdH;SPlkXSbk&9;81LsLYo>H~YE^Yy2yk3|qm=u6$sn68Pykg3!ZU|^9ixXyRm|HD
zHI%^0Y-nis2=ZuF#OT=AZu5N|#2*O#NsV)Ha|5oa2N@_<_xRuB)7-gq`4mhDG*Z^E
zWi!yy(soiJ|FiOp0L8ddDOx+_HLdYL`d!#e^DDozMYBoxV}{6w@^ytWRq_H$O4w^_
zYYE2?OrYUEefpHkhI;*GP+_8l+n8|{t@D({gm4bo7uRa}UL{S`5;)Zn$jLsgaANmO
zFrPe1kGra^HU4K|r|!W6qB-u1EUB`pFCngEf$K|4-T?u(;XeKl^uip-(}{=slU|zw
zV5Z_~M|XE1oQ|3K`A=zSG=NMzK{bR((=tyWIHn+JKLp8}5DXMfi;4R2abg=A8&F|b
z!lcE;XB+Pbyagv=AYJYgFxi5)?YPc=H^foM2JmeQH0Tg2Nh>5W0d#JuC^ihxw!y{_
zg|Y}*j{ba00F<rXO1pRd{{G*29iBl?Nq_?+6~h$_N2@@;6&pOVSJ52iRyH;Yr;h0w
zI<~gO%42i`3LS}9NaliSgNOr#&g-xG?PCX?ol=h{i)%VDuSHkD7Kwk~PlL|m;0;L`
zl=eWUoF$VNte>G&_OiD1M`vBQt1OA3p&{s>!Dv@+^d>f6>JWe@@e8cjqVt(ZfYNZh
z4Sy%T0zV)7Uzu1Tus9;&Fr-MB*ypzdk@Y~W87(%!gUf4x6$BMN<L^Ns>{*nc4|2Ow
zSs4myfPA_)kgCGX%WLyz<|U*|8({~rX0tLg|LpI_BO@b|h>&u5@D5y>rj`~K-G*zW
zW}{b<CwGZh-lD_W4;>K)@*J3C<p}bD{@7=SuC9VVp4{7?)FoPDyeG%_C<pI!(I|iF
zn%2W%IK7a5{@K_lw60*#($a#9gHsRHF~6{|0Rptd#0Ssr$Md^o5>Xwjro|V6L<;rq
zAS$Qu@6nDvlqu24O1q-7A0_bc=4LOq)4x0Ws|u*16&p)xw>HqO$iZmt94Vi%0J{RV
z2o6|3P=bLkB-*ZK^EN~1_ovsb`@VsJEu*86kOv)d%8+pzGhJWDA2{YJ9t7P|H$iUM
z(Vdx{y?JnuKxKG?ccKr}-rt1=lA2mtYUNf5bS6zrO*0^tLq)YF^(iSSStB6H)7RB~
z39DSFl_wr;o%ov8%F3$#=g*fpyKo1q52sw5#?n$zOOzKHzlU`F^Yf<dO791NDe}3R
z+&ROH!brI{OY@GAetsAR9bvj~8zD#fJ41m6<&yx$uW;CoTPq<GG@b)kxG`N9kDPBo
zS$!vm+d)-TE~P5=g1*@V-;cSp!JeT;-FaXOC?pSv_mz%LyjGRH$-(&FEZEsT;YwRR
zzx_Tkva^T7Z<)<Tn7}Dn?M=7}!cWg&W1=9w=ygN>K$S?y&~I)AK&%x;62Oc}Nb};f
zt?dSnWY3LE@UTxO<w`zK3RgEb)WL(BXb8o#_}wtJP~(|XQ96#7)`!R-3Yw**B}+;Z
z-?=ALR9*nGaq;j*3-oV-s{FIBF9d8Jo0)pFoICh;6Z1o5_2p*3qQdnOOgJF3vv`%#
z)44m>e9QfK@jj5#Pc=1esrSV&<zfihx{-3#B|t%2f16bd)_Hi$UAiba$bg<ECL;qZ
zoCTGl4idO{08Rizw6hMrd(!$-f&keJw;ebTOdSLb-yiA)bG1;*=*^oKkZFZ6gYv4X
ze%Q}g=Oi#V(C_?Q5MLQ3AnvYd`0a&4m`EZ87hX`k%t9JmmzAlSDiOvn_=#K)2>49k
zCHMhy@e(N^5MJob(-Gi5`y&*fqe~%-jCg`v7zXQjCF;Wmv}ezrfxQ|JcRus{1{%4r
z$T2^e56<;huV3T9!VW{25#O1GL<OHXgw3-Tdv(6e3#KM6j+e>cPUktJ>1$8ax<wzX
z598tD3Q9>~{r&s5*nB(!L>N=@vCDB-SPTpdRG1~}0F(UleQ}ZstBn!nmOxTTC}w*x
zT<#~UG+;Ua-EVDafiVA1c;+9FuqGX*7xU^a`qW!DLF)oW9|l5r8(xJ{iqOlKFa1fl
zaUtvi1||615M<-0eEj$$fJx-;LOV%3UvC(2RXl2`UUj!)awev)5K91OoLm^261ma~
z!ne4T)Z31*CyII6S|t;3(;;51kReY6=5vzsZ4vF;518KHr4TVr$vs0!wS#9{V0DTw
z`%&=o#{npk%TZ?ssQTg4r>j6WmtkLLvOohsAt~U`GqbZFpdkeY20FU9WTo0mA8w4Y
ziUgAQLE5~uv=r`W5nv%K1Msmw!&Sl*O&a_^SPzk=gPF{rR6$0ZB@FD-r+m))Kj3G@
z7L!o`AWSw>9N>Z1e?YN}9D0I}>FVnG0F(xR(ZlI(uzd`n8bXqU)pUS%FuxxdC9Bm;
zJr*S6Wn*n9n>rzdHj;m&QA@hrTwOqMG-`wm2*|`uz{B!9T#_cpq((cqNXm`G(wRT-
zzm^A}AfKI|M+$iGGpHB88Ohg0oqkXo@8aSnMvXiH)dTv^4pc`}DX6I6hSqGmH9-hP
z8}9n8`u|omI6nSepfBnl5P)=W5S5h;f(Vwe`CR;s+kMo<WDqNvb~_}6&e+9diG+p$
zC8cW3!EXFMl<oga{$rjyg|xMa1*|J9lVG5IeL&XpQCy$<@2~|zLPH&o_&lb`^IB={
z#RvZQz_j7E0`<}1^YJp(=f^hA*q33I+Z=-uv4VV&OC%nlD4@&AngpetP@5gqtWoU<
zC~&%5(habWg+)XP-~7D7f4af?$ebk(1~lfEms=rVVgk?%o@4+GJBG*ZGt~d9kXsM~
zwS*f6mcTOo0c8PNxz*MLH?>Sm8;r%s(c%LKL!otO_K@+o`UAXF__@#Ca*qPQW&~__
zNEti?yF|0X+6&6?a^<<WxHyXEz+0ich8c}04)f2^(Zm3&72Iah6w2HHX)OZ{K$ZBX
z>cwJqujc=Q4ZwgAK#fehz~U6xXvZ9OX4-8r^J|ei?Jv3?^7}5Ai?dmbMgU(-f;`ql
zu*cC~8%Er@In`Ac&q9J-cPuiH+edU<z%sZUp80Ou@^x~%NjEZfDpMj}s<o#l2=Yzo
z5iU+ncS%W6-lt+Gn4mc)H?V%BrM0T)xOvHEyuG|Qhv67cxS_LibBQN7*ML;$fp!O2
z+R%}`6xz?U>)vgMyDP=Rr-Hf<TigZ&3Di&!2yaT_SD~wY032bGa_;Tz4N$}f&JGhy
zhh=AHk5oA@!Z=wfXic!tGt0|2e;`j0hTSodi{?zyYyAr(esi0U?Tk5IwyfMIZW0v|
zkxwvHuZtCwz4L7;$M{J57GwwgoI_SW(W-PPWeNuACQ+KKyqEErkBW*yi7d4jC+~>Z
zj9<WVqeK=kDrZ1^e*wCb(hzjp1M+xOKI1(woBx<PBD!-Y2y3zL6dmFvN}XnAW=tF$
z-LIdy8JquW%;?3KQfpS<VHSMokC1igO%S??fT67>cmdTqcRuh(l3-d*v)VBjQZuFl
z{9s?f>{Q`oUS+Ffs14=kviVvQH+_aG`yOkzFVD6{!t&mSn{y8q0>L-Ca3_CxVdU$&
z|5g2fsIMZA1}qwt@MGlCFeMc=D#mSg=|n(t=d2lqAo5MOIN_%(&O>EHgZCjISjtZS
zXZ(QXa_UZNUrU6ubQFv0u9Uy_u@sJ4zti#&gfl9T^EY4s?I&o4WFBY1kfWGgS!sh~
zsf0>}eKQ${-F5{KV|Jy3PNFad*6rJ@XR7MzeQC1sSY$`g??zja73rLIr^^zv`5(Zj
zR0ZTsnxG?ax%@TrUW6)$8c0G7&cV6Z0lJB**vM0qZZLnro*_Gl`uJfBln9Pz$AMJ|
z<dH*l{nhMO1uj3ca2TMW@_ZCLY|9(7LTpwp@k_D%3nH%(to(#x^{d6TtT4TjK&nyU
z!W!1&V%K~a)Wub|_Y84*IU@CIk5=h?ZQvUYS?lm8=OT#F64eZUe2JGjGoyKbdYZFn
zX<Y5t+4VDStoHwe1KzF=Am(H-CqwbPu2Ag~Q>90n9d8@GZxeQ;K$ZsZMS%7<^ZzvQ
z6>-{i3nsa4U_E#r8ymZ}wxoorD|<^_XQ$hB#b%?pz1pV(eA-bl6y{d;_ANt0%I^;R
zIMejWWU(zSV_DsAa?LxuFSI8>T1;G9cF;t=8%NXc56LWqJ83laeO57DJ$Ce+hmu>r
z<#-aOwwAihn{mtP$#M)x#iRT)P%^PjO?en9U4_M2Sp}czJbuC)Ok_FSpI%#6b|C_;
zt6}z(*r!wz6>_bU+j_!2OKQ}-!R)XYBs{htCEnt&oXS==eD|*NzK$zeeSey)QfHn{
zos5`R3tlw;R2|$)=)|P3j{&)XWYF>2Vr!y8RaMn$=@(&%{yX4(aI)dGXd8DSz70ZI
zvOV7@)Jitf0be)@NXRfe?IhuMeefP!Rnr=`wV||j?mq8-bFl|`nxo}XL>QFM>^!Hm
z=hJuW`5r&ypFxcPaILc5sGjzncGpa#tFr#frk9jNc+fS0Rpyg9knWWbeD}`w6xz(m
z;ui$WVED+mJ%3_ic%#1Leep$UlpV3L;&h4RG8%gAitL)lxdTG-V&7maXua57>N6dD
zcnEsw>gzZ96SAhiPPhUHX&G8Tre!`{mSXsSNdw;(->D`S^6o9O)PcqzmLZ=4fwr5#
z4-=tG!pmlmY5<4$zm3*8yInU`g#;D=JD3#nhR!^@wkA<wy@(DvKY%V&d<7y)02%|p
zB2ykuvv32+$26XTJiBxB_xL*!R3L(kSZHRnpJb{C6*E6J`0W})#Gb0hezTjDzfEIl
zi7-T*2P{R)$h6x|bq}rXdI`Ramu)qowK?B?1xBi(gYD9BKaJ_|p+)rHqs^)ARD)Y1
zhwF?34lby=3K<GC@4Si{`U}~#JtP460_401?Cuv3QC92>2ndMebFufnlk%Tv;hl4K
z5QqSfW_4gaeEuEgNFnr8AHksUzF0#L7_cr>f=HfW9iypgCtySQrh|0Au#-OP!*HBB
zq1xic#xJlR2w4rWVEgst!|>=eSy@?tP>OEcV;1p17Oew?ckp2>0-S-Qk8UMc6fyqN
zl6@=Z5p2$NR7(-cW;#_NHyteTc2>|pMIKSg_+0yPX**YX+#&V%X%3>?e)S4LrgCew
zzkxT)@YQGX8BteTQmMGld!|i?hm)mUl(z+1bTl|nJ~H;^NC%V}7%vNdrE#byzsq3$
zFzPXVzYWR1G0}IjqFEFWb_JvjC*f0gIDw3e%*e<{`jCd28uUqsV4XUi>^}ig&<HFV
z@|<tgrvHx_#^=orhg(|DbZVubJ1M!5jX`ZiRcLZ@a^P}u1$wU_dRyq$`+9s+A+2^e
zHYrgiZoW<XPs$$Tx4i;uZvJT>$Ud#&czO|`<DvR%;-C)Cp6@$BQ7RLt1;yLpJGWFJ
zKQE4f@jWUsIPAMvk2kwhodPF+blGbq>ZRse&NT`?Lt791BhN{zII@+pYCX$U!z2v6
z7py={bEWoQ0vZ3;#WCkvWv0iV_Q2vkiRcGM-du>%!MtR7Wo2z?He?;m$BNqv{Qosk
z8CTknq}Tk}>B6epPcQ)*KN^sLl8$#(ZfgT@<Z+w(H^06K%gCVJXR(jv2RFZG=|C}4
z`|7g8)FO;kJThO|=+u7h(vddF|07%LRW+yCqM;QI+|EqwKejNVl&DCTp;pHKeof-k
z?!b+;THwysgyH0@O(x4C{kQ^HzQc?<iLQ%u>fG4PAG&>Do)ohz%5pd@?B;~tzh?mo
zg`^>VVE8vph<mHb2Sz|pVf{RTr-s6(#lI!vyJPOW=(i{RJ<M5uc-W=+92w@Z4S=Rz
zM`~qWMnWD}fB6VuQkH};t=1A~yy)Zo^^OZwXjwQ)pF5o~qGm=Qlmama{nMT-)R8Ja
zZ@UVCmSd0n&%RfX%{x5MX&XB_B!+d-$qRqHraiK5m$>J~9SGBB+;+VxCEXx2Pnl1~
z)#~%7X{OM<7(314zqELAtM1G{@1`5p``TKxZHJ4mQ%Nlu7T2}wY#$0yP;9(2bj|5G
zc>e{`E(z8FQAC5o02MU(JOT|AXbM5(N5JIUN}mVQCu-MNkDKY}bU1D#g2}fa)jc*A
zRcO$;#uJ8>95jCbw`QWs?aQeyr(aM&b7eIt40h?AM5sk9>L=+~QLM1|VPK35X9pOJ
zR`b;*$++zx3s92d{LMqukcWX!R9GQxXxjNbrR%kjJhKJL{^Tnox0DC20QVEQ)?j>1
zOg=uk5tXEmHO||NtZtqDWyGAn$1VmldPbVU0P)CYX$$3SmZeKbNHwK<%0;XvLnx6w
z>`Ca~oc&|gP5wW$!Y>czMimC9&$C#l0y+7B346VSz$P;*eKU*)LFO9AvT2fdxG0w6
zvBF%sS`jrczF&twJZYuC9)I>MpxkvS`JeRF69okf9*3xw?ds4)=L#h%&nVEme;rd?
z0u{-F`H?mi0Ah|rgfG)%Vhc4HQ30-lt;y)4Bd#<1%Zz^>0CPF5&COKf6+VzxOrRzv
zCcfe9T<A0^I5)3{%5EReIoH1mJTHlcXxdv15nLbI*O(`+BsNRG$f=k=OshQYhc8Sp
zjs=jtxRFsko{T}}wl7z@xWJ7q_XECwKxmkJp$*6{L`Rr(=Y%yi${K&Jnrrz`dJb)<
zmPLK7mprq-a1FE^kD$jUXIp@*Mf8yQcXsPXckgVi^N^4iH(aKZy{n7v0)panx*1c4
z^RIX$hy}hRklidY>4$-AH5QwN7usz?9}>Ubs&K{F?h#@7;o&j35y#ygh8nyC9_e0t
zjYe2b4!8>xaUprB{mZec?W3r?%MbH;(b3YsJaH(6y>TB44PfatXUd&P<Pha(X{jsv
z<ChSWNMy*3(dm?YQ7vgtzsnl(^});3?C8_edFzT-E_oB>EvLth3p-+4e9Nv=@h%nH
zF5Snj-Lw7A%>C-D+Xu)ob~Ld!Ct6harc++loVZ?|L#QD*fsQ;b6f6f24H9DXP59Tx
z0x7B-zVlF$??*(3HbyzIMzUoK)VLhz^`~CynjG(!WL$_t8t(Wt*nbTTe|r<od8J79
z(dJJMzfSo$u98ld`H*jZRK09GM0o)aiPyadGk1u8g?i3gbMvmC&WOAB?ujT{<9-^y
zv9sy>A!dY3M5Z)5m0lY=<8Z6+T_dCG?;Jkz^J$v;VV@$SZYIY+Z$6EObRwH27Y!zZ
zgve0V?}8s5$^$#zt1~jI+fp4LnVH-26B@O~FQnI7!)YcKNs$kZa1HXz`sP>Tijg8O
z4p2ai>D>(w*j={l<12y{TwR~b$n;D}>;Q>sYHbzRJ1(1YmRyr``?P+z^7|8zs2bZ-
z<ntgHdPjN7AZM4`ZxT6dcMPh`HOtd=J<+ay0F@i!fxnZ*@jm0XAKw4|D*Y0b)iixk
zV>R30!Jm?(Q|E3v6Dc6CvnF794%p=Uoff&LID>0qYj9|&kh(gN7bd~UFyUW+f2_j7
z!not=fo~^08q<JjtLEcy=2D7Q{QjACIs5X;S_$T2&_De%U7?HfPo5d;Utfgs@}Gb&
z)4#q5<;Fj$;D$&4d=bine|>w(|AQy#S*#&EaVl9@SlT)|SnM9mQ7M;O>4N(pW$y~t
z^8K}i#k27;%ViM#W_o8E!Cv={*)UV^q0&Zs_2ph8eAh>Py?3$Y^g}YT`1|%|Ug|l@
zb@@pc<cPNR_F0$-(+7bONbsC;4$t7(bj#@Er^n3_Z*)ye;ATobWu=I%DzilHNa5f0
z*rZ|R#|C)?5YY=zd0&#b2k&!vI{qxRobHAx3BL*=p>>NI4EMa7DX|^VJWqEpd0p1H
zh}|`%AZd?|ZP5(M7363b^XJ<a%5fNdB~tVj+JaFTjYNY^=F6bT{R^`&%G<$~N~R|}
ziyK~27pp3Xc}+7)H9RnO{}i6~Ivj@)<v2n?HaLu%#ENGNJz*G!BeN6Lp^%}<WA~W&
z8zVVH_`orNp5*U@PMC?C_+t_VOMd)F)vUJm5~p`>uBj}`5W>x4W=#pHrD&Z~{2ji7
zCj#I6&;T&j-x&)Q75`C*x^$0r4VS~ka|Mqn-%v>^1s}>O9EK{})>13oR5zY$Fp2`P
z7Ng=)Du_kDN9igsci-(vrYzZq!>HM)ylu7FVQ>SR2xNqtaBP?)s#sddh0**#fX{Na
zbN1kfD&0P0w&R++ouZr-$(4TRFt-(tfKb<;_~!j~B_%=pud|H;sUNe5bEel#)?POe
zOC`MiGyC07vxcY<3SmHBDt!A6W<59nqqT0t=e0yZk@6;MR!zj+3I2H7`ww4;wQ)g?
zaBnj1pU1^;Ps=6QYh@na{0;+w2;*rNL`9~ia<*#lcIkfHe7Wl}3(OS^Tx`zFyZ~n{
zPVEBZ%d@}ZmOZZ8Ym(<4S(kJ$>hushMS|J2PwI+Bo&K7YXK&QOB07tOCS*9S9-9~j
zPx<MCOMx0x1n`75v$@#?YHyqxKWL`)_4P*lj0Y(fb%P$^IXZQ54xpMJB#2?&e`1Py
zC7yEqThs1mcR^&rXE>R-<hU(MVtqFP=h6a5SGHzVpp!>+oS$5Er3DRjFMV%35K}pr
z%UCuS$<4%V7}3+$f1))tI-rZbbIqldMO9r5i5dYZK?Rm6BxS^ZmgdK1G~&!<U=ozh
z!;I0fsn9lWt0ai4d3lz#*wjtYFH+=n4J|4sN41mp2NZK#HE;aLwt0m~@I<e;^v>pl
zi0Q7DM3{9`-b;$4lGDu3b*{m_jW^NKCzH9UBzgH&cnu|}=)&oA3RYsdU=D=K{mc<w
z*3*$MU9sY6BwJwDJLRv3GeT`r8ObI--TS26_o4;8_T2mj_YAETCkO$B$>QF$dUkeg
zI*9E03n!JbWf_u|M?y*slti2szaTRrP3r9^^KPk2ufM}!Awv=BuAYVN%Q%VVzdA!q
zM*Bvo*s}Oc;v@}}AnTU99Oh;;I<BTnRdv=RkBhw9-rCf7o1C(g6)+J);;xmfR+*^%
zW$5X&OANuO%nY1-#A%tuV?HXX>4JOs;dI|TM;>fVR3|vZF7S$v#SPYlSA<(hZ*y!@
zO+My3n4bRPB3{<kQJv=y&G<PxkiJP$B&EY(^U!9b*qSiokga{N!1em`8n@%Rmt^w`
z@_tmItpzsc>WJEy5}a+Gpl3N}nMOv>V$Y)+>|d#sy9t0#vN63Y5Fte<+ZP~=P`7uB
z2iD8vGC+fnQmc4)-$Ax!?n|9D20rF5hNs3utCz)lM0U|-OAXV(h-B(%{g$@bGq*D)
zi4<-DZ_>uTj?eVV-Asj|G%t#**Xs+W5q~-pE6yt4@+10(EfO_f4W~VHIc%9$Wwv2K
zY-vxq^6$C)>N+@m(Am|lJLu3qTJFj`s-}hr%a{>lzZ|nYH>OSLR6@K_^|?pc(%P3l
z$Xl**XxJ~?S#C>>N&k+RsATiSG-Iotxqg<p!}L-BY9e&p4+DWuZzB6?rqq>b_g$ET
zwAnoWM*DG_Rp#;a*8=4X>-XGS7mL!+(%0_S=l7a~+2y92@8!j6sO@*DTF_`h<SgcW
zOV=OF^rT^@T6E|rj_uhod;vNSU6WL3@oB>)aOd^J{l8G{{&^X(#VxT(-8K4WUJntt
zIhi6&((VxA%j1j=C9GyCr&xS`T=vH5#HW&j<#;ZqH+iK-e{`l($(HA~+P%~1d4e+b
zcDdZ<&=KL8ii6aZfItvdt5Wz-f|2}mf-b-6f=GvkE>A~v`xNA@X#c;O&O4s!{(s{~
zZc1fD$i8J2W$$rBi6XmXL_#)M*`p9;m5~nFn`E!7GLkY6vWk#n9>=k_-|KUKAHP3)
zoSbt$@BO}B&+9rf8(rDwy#ET}B9G!>D1lVj^@pgpp~;L=)I7eqpOkO~AI@(uu&x#!
zHAS!pGc1)jn}dBHS*Z_yEzM9JQLK2J?f<)6lu+ULo1b?2BkiYUYY@@QTBdJtj#*sl
z>Z(n2Pd+}Zj1Q?Tip12Mhb4L={(LNf+huFeC3<;631XkBdlqI?->nf<yG)xY`!+_J
z*hI8_e?im?)yhaqXYl?8diXi-^}EUqmRpV!r>;fSED<e6L;@5%p8fpoL;7Uy=bcBH
zz1l-UsC`i@66rEU4dd;$BVqhW&8%v+PQ8L1+b#V;I|-Q2!OFZMzK8dWJeREcO21dY
zOpaU}3N?+gbGhQc7`nVXzu9Sk+WAR6_%?z{k>YdvKoa{)jP9*pvk@@YGVc}1a4=D=
zcHLU7RcAcKhE0U_T4wtpJQa5L{AE*Rg7lELw}WvFa}as)SeYNe<t;(3$2V9N^_qqy
zD~gz5Ofj54P{{*B_E8IVD83-QPKs~3k0d%2KW&P2yyq{)h8nJEc-I&p@MD{uFaJ6t
z3SRP=ZawNLP8MJ2!z7&467iX!j^{U~3R1T|!kJ>PuIcmN>w5p(sQ7COHa3GUPt<up
zaDqkt`Tl~fPnxq*9D5jz&>Q%c<S#T%q$^u>Cx}T+TX>-V5_otr5G*2Bq4`RZ>cMQp
zuLgFlg7R7ECTFR1L&~Z`Gn7cbbzQ*S0XdugI+m;TP1H8%dBHTfRt%l$I(><(R&nEv
z^Z)Ykg+WWK77V|BmFleXYvLIkEY7icpYG$P63d}IesM>--1j7-ma0y9C09Xb(*EfK
zX32o*3ox2bEldW(Fo4ClWrwE-Mxmwld;Wyep!kVCi`#F#ui!~O;XIsmJ&oj_<20N^
z+0_remtD$YxBS-dtXGPQN#=<}wOqf0b0{5E>Nnns*X7IxcUw7Yn`X(bf%}1Wt9kNU
zcehpV*Gc!-3|-rvuq?hu=C-$BQoW3p&cQ#J_!N+m&GM4F?JG(<&sMlw_K*YB<HT-K
z?}}+mmb&0RL8d}r?*MXi*42db^t-xHGMGKIz9LC7S?H{+8WxU!hWe>?<poQ-vs5l>
zEmL!8<xKw#o=|<5yahgg+G+ORoXabBuje&sHNM!5Hn4TloR6_*5<N1$op4q4>0@4X
z-k6yUA{YE$zeTbWut{*&)z!7#NNXSM4rZ=eIzhwc@@oFn9o@3h%4}f2Ql)QdY#2J3
zM37!fh}$=jGDtGM-<SVD6@}G}HH4;0^IZD8zv*vy+^W2`HV9kg!k`N=Kl2VVYKU|Z
zPE9Da@Q8k1%b<lc%8X!7D_JjtT&=j8s_k1QF+*%vw<~5OXVlg4lPc=*gGZ@}iK>tM
z-ft1?s_d2q{W159e%8ZcKc{I}bUXaS+Z0UaFo*k$Nyy`oY-KCY!acHw#`(g{hpUa6
zhSpNl{60<X32xTXWzN*lp4mAzTShj6_u};RW1?~dy4;)j#^|qZnTX&lt>fZ~F(%bl
z9aN*nJPLH`1vTj(Fzp7Y!aVKR#^=HSY}zCpt(szV;xXYm_=9#WuONPy3igdkLcNcX
zRe9NlMd_~x8e3y`U4B-Fe(O@>TMr;t^pkrg^tek(dIg;pm8;Lh_tfzq0k#g*6Gern
zO?Adn?@iaYE9ejFN=Ln9{0TT*x^|FJR9zjJ3^nhF(m=2t+N!CY_$6fjI>WJ==CS*6
znZSgD!<hy7?cVL)c+33T@7mz_vsNKHXTP-3nKhQ(znNw3&XHTkH{ClqtWf0#>rJie
z%Gq;a)OOqAp8iG5^!)Xt+CN8CjJLX8W{G>xJ-|=SwP?v3MDEud#4vG%k(NGOGR0d~
zCqzY6ceNJ1wfpH9)Y5g<!<0Sn!_heuwKIoFk$&s1mgnnlrq0(0kp&&=y(qZ0PJ*@?
z^1(&1bz<T=Mw({>|MB$aC^2$gVsrDkeY(b(Tf4&ax{*6x6aEF?rQCO>B;>d%?L*i8
z^3JC91YS|im~U&^J4G@xnpHU^@#M7y*I5@I2ioIS5xUCjcXy|DMwqR2I;hT#<Th>*
zR-3ox>isRey>;JtWkJZ9ed0W047W*C|Iv!!0Ck_nGWxynu>5NN@FeV{$bz4i`V}|y
zgT!WIgywBUa^BMuPdl9Lcl}3|dqUG59@UnN?0Y4Xub%eWc-DCMCBzNp!?AJMjs4o>
zL@CtM_E+`<f|vA5f??}P7?u2Y3vR;^0?rmJUV8`RLH2ir-v5@LmvjB_G~eb+NIxv$
zT33(7VUZEdze7h}W!tjH!JrN6P1LxDrPsW>Bc{H_ov;+%=#^^5(9I*Tj<&tr>0nZ}
z({Ha`MCCM8Xz%H1BIe96iou{*Dfi=?JnZ_4H7Q{Od(O%4b1&z0%HvBb-#)UnJ@|yO
zd9lIXe5z$IyMwb$JsWF0RN36iv`KOI@C0nm;e#CvIX^mkejb^^r^CFXahXS9w#9_?
z_-$85a5^{!2IMk?TkC0%4|pf4l(*8lFMF2wWcm;mf`cXpPV?lSaVaS|ja}8c35A2s
zqejLPH33{bsxPv7eq?FCxj5#$$UbCm$04+2qBDnnk>^sfawquD)8*d{&x#l`cP(aP
zpweJa@=n2iPdE4Z8HzHI52<p&7QUW3m0lG1#`CAe#1_TvAutGzQ?p{c6^|!0TwPr&
z8>4Fc>}^XfEcIEVngvsPryh(i7}Ybk-yU&W_mNM(l|)@qiZ$Srll$Z+9+@+#`4{#o
zwB1m6i^{9mx3LGhc>F~LDo)djsS<wkGLN|1@ocqjOT2LSY$-D#Qw}sKx>^x9&YL0|
z#m>@`uT#&?!+Lu`-mKY*<?B_`m&pc{SBgJeGAIyD*`v(XYgTO)eX$aOb|PvGI$>Eu
zF-)G$lUUv;qo^d>@_9adlykbT;m3M|JB}q^vR=e&5v?~Rj|%4axT@ktism%uU`K3R
zG&CGv-Q50BN!P`gc@Z`=YEP%%*|m+Nt;%@{BD*FE=~Q@M>dzXsAMY?%od~`l7FbZN
zv2C6<;MSISf1Kf>oS0s+xV-(2u*GkVv58>Lv2FHi@UrckI4ri%=G|~QI_p%F{_Uow
z@&&^sNyl1er|$61iqv{an6>>nQ}IvvwOo8pX0_+`{1^!MxA?t6LRxcL@$TWD%dZl|
z52RsCgug_qYd)0(2wT$b1KI3NzbjH7+v7Zr(NtF7;qrQS?si^4_hKxKFMaciC<?>c
z=dgtfrtGqGtkJvk_Hra9c&Cj-FsiB7g;gZa(RJ>7!|B9zciEQpyR6PwfnU?OZ@x9D
z*;l_!9w-g^PVh4Pcg^O6_DqfO=L$46#B482HlXWdWa6*jza>^M>f}BbgAIR_xWtTF
z{t=&JL*a{y*}q*P$x^cvo>%iYg3O-97*EJul^01AG*GH<2uH)gebws;{Yb@q!*QEA
z*U0wjQnsN3`(sZfy4Qzrx{ZQ<_%m5bF%I6uT}|4<q@nijV>j!cq{3#}h~9;=ypo5)
zurj|>i1WbLHU6&$vj6>AH|1$eh-y^Q4ffp#p#EJ2h_Y~2Pj9fd`b5S05kER;-@m75
z<g<JJMwiN~#6JN(<e~V;n#)5=H(wNn0CVu`9hCP0eMRYot&Qou!}M2L7$iMiK5fI$
zEoSNRS*m-ZD*33sk45unQ$7qR4@5Tv-_Iq}hT4fuBm>|Ty#SKu2z<UiT&00WLD00U
zuQgC-0##}LS6zk9xCHNLOshM9U<aV2rL{uh1%mp&e7R>vdJKdn7+^bx%>ujOzAfXm
z`Y)7?@<6&nX!Y}4PJUu8(>DO>v8~*i5Qh>ZkEkdXx#VJF+lVKSh*o&FX&mk=pnYJW
zCx^5_gpz_t$tUxDoDdaiQ8_~iWh}^#_+^7{w0$dNrU@YxAj0qg#r-2uC>hj7Q~p?K
z(;!IVeVvlh4M1@|<ezR4p@Lox3<|$~{%3HDcu0D7#vr>H1TZk?6ifBD`X(UsH#lnk
zr^JbXr7744qulUOBUM^dObp^CuD~nzp^OAyFNlOx&EG+20$Lk!G_1n&_5<()iK+QU
zRs2xN=Olb#OQD7%R17?jE^tq*Y-|Xa2X(6c%L4$FkyEpGL21();x3WW^UzQNJml-t
z)Q@^wP_t~<U#ZtG)PD&nF95ySuikm>;*yjTtDunfD@iXy8!`di0fQ<OGs)@oKFcN>
zPmSIQ+S&0Ur(_NZ4i4TTf+E0j@M(VCw8560cO6I$(MN5kz^ki%?HUTOINX-w44zD|
zt*GtqzROuw>DPc+0F3b&I*Edc3I_)4Oz5&PQAoyo1OVedCr`rKd<Te=vZ^X8khqXo
z5o1Asx**f39D)ZCkONH6&|3(4+m*CAFF3Kf`UJ|?8sPi_HXZ>l;)Tpo0Ym`4irTRb
z@-rYFYqZf<3Q{e<z|(`kB@9?da8G}Ss#~1}yc@-tGrpPD2ssHDpfb35&dSEXkfmam
zR|EO&9bi=S{5DQ@vf$u>#0!ZXkN&wvFTH{xJAHn7yQ(CpFCbwA+PNA`pq3j#G%1}K
zOw1IFd*_=EAFe>S5fU)UB84_8aDy}!$U=#npSSs6sxjZ?%P*nixeDRUq)B(QK>t9D
zJ<u;ZdwbYMUr(s7wgaI~ajNfw9MUpC?L(vm3V^-%OFAb40|TQu6nmg%{{<{TfT=?X
zV2VKK1;)2_`=OGIv$HeEJ4kv9RGNbx@3cVn3#hj6C9VSjf3z;|=IUxQ{E-a|7-Z>c
zZ!SW5ZVZGLU^7+DI6m@Ln_P#~A4_N;g#3r35L;hyaBOh%@Yr_XHf>9^Gn9QA8NccR
zmIom9Ws};{{xR{lVEbB9;Lg$K@BHzj6>3Z16~-1DOEo3SC2E{W_PZ)`@rIJf*H|uI
zwnCp;^?Ud4Ux4xo7L5kM9E-(1@$j#l@P{UZiC(+qEG8y~7<J&VD))5x4=8rvkz|Ia
z#)okQ<>c^yGmcA64nZ63IcmzvK)$?D|0f9wk>Il6k&(f`K&9e9Yd~rfq(%?&Qlh{I
zF%fv|AKWwWKmNS}Q2o6vd_-fT0?Ze4z`dc}rwIft_*y|<=17FiTSD@vf|;<XoP<yj
z5ZzVz*g4yZTC*A5$H&G*pDy1A|5p@v+wK<XXMjZp#_vFbw_AKn@yG%WmwWg+FdwKb
z6u6FFLYKp1*xK5<FJ#uo6I<(o)e{A6IRx$&p8px+c!t7;(5a@bJ_7<}Q0_2Mi#o>s
z6fE6Oo(Lnc#t;P)4C5Wz<uqcTgxPY6nwn2Uq(6Nffrck1k1-uX+a4l+8->ZOt*wFL
zvmca<%7IDXFkX$v^eXyYh2j^yLk>(2_vMi{%Aw+N)!ivlgwVFjAqDUJT>aqL5nu^s
z$3wtCAl=&L_a_O6&KP16yrh@gMd!hBq*_&7&3pMW1quRCKt*>CfZUo}5F_o5UUg(2
zFJ4ZA2lQO|MdG!15~oPl(+pKxbLb*gxu+U)M8Gr$fR=!@S`{n;AXb_K9YdZLHWcWf
zVyou6*Tm?25qMbLf*TpyKuZ4rnjAu@9>RbJ8T0zSvrf3wvs=EbqobpimX?2@z`jGA
zVS*e}SPDYGO$WAuru`K;0JcbKfzhYiw0QIgwYs{RuFKP1je#g+V1#w^-rvr-C?P>_
zJf26eJ`krDu#-#}1pp09l*8UDQ!bn4PEMKt^#S{h-FkFX0J9xQ69NY+w${ZWD>baC
zB!ZLBp4<i^6R0M@CV<iPBv8y>0nZpTr!d#$#k(v|G$v2CM*s`LjJE*B)Nc#(IBm8g
zF<UzDNS;y9q_3daVN~>**n53QYl3xrq{&}SMn*<<7V%jUr`u(GHu5LRc6WEda`6T5
zbr1GlxMG7Q>r<1ZeF@UUxnyON4)@cVtXEqF(t*c`3Si%>w*KZz{NyXmy$EJE*jf?=
zA5237!HTUP`-0}3w98<zF=Fcx0d*C;A3!|g016+wwR*3Z-ElTwx4>&I#S_VUm4Ogj
zz;cn;C_q9nAk<rcjTBZFwOh9`pgj<16EFr**cTA+1q`4C#x)-&$`WAB1-ch<liE*m
z_<aTsfsDuE`4p%t$jFSQufK-`5+E_f9mnEdzor3P>?TY~V8`>|E&cZKHQ+;q$Rf*)
z^}ZT~>k|>f51<#oxccW{cO62hZ;#v4DcihrSEQ1YlY=Eu1zxos%zv}x0z?vYxd-|~
zlDO@2z<1#Tu@f7N5MBa*S!IRZ`9lijpPhsCUa*w0r8C*hkJkwGrB!;OP^Z0+-w4Ra
z$k5XGc$^4dI4(7{2RhF1lY4<=w2T|>g1c1$;J?V$1PE;;i<IV^3{-f1HW%Ara8}Ly
z{fegc9~1lA==J+>{o)DE5Wz;m%q2A@CMEz*!DWQ3Dqz~p(l1bDDFOTK46Mw+o>oa+
zl$DVo{xo)0sA>eb9S}SfD5`<4F<vOG*^v?0&+u2TGQkNxRu?muaj&S(i+B;n4a5Xt
zz;pr5M+rDPZ4Ivd_woBB+sX%077lCz$g=9sDx@;KBNW3&MfCAX*`9gb#%cPv<bX10
zx|?U;<rHzzhlf@bBWhI&fIjl$0i0ecPf?MtUWp>nVw~(=JU*<-;Re^?rWh9%sAk{m
zTDf&ab^DXVf_7`d&(v8Py&QSPUa5(O-pwKd8@ypOy;$Cb;yW1}NM$bzb3jyO{Z$q^
zkrvSY{Hpl}d9PQKnhzc>Kc5{r&)=2gT~T|E!#>^uxM-i~o!HNk_~ZIgVg5J*#4LF!
z++b5^>sOGo-G@lCEjG2f+eyC#=^sDdIVt(2Mu|(m&?J`Q18Jg}6@Trj)3K6%zC*+8
zQD^|vUq<TO^7^;oCkz_UR8GUomqu$J<mI6!^Bqru1{BsflSQT;N8m1lTbO2=G;+lS
zdEIuPkx^nva`3I8u(`O*sG&Q%a0sQMAg(WM{C@em5QElfPCmJ0(D|4LO&{NsT}l+>
zb{HTa+Fhq^wAXM!N01I(srW;Z0jW^|5g9>KMc=LE44eMUT&n9A-tZe#FpL$-49p*n
zUix1D2`*s*!r?~Gl*XF5s5mUwR;kNCi~)K1TW8Po=dJF@<9w+ZhLUWbYizK5)=M3|
zh)|_R<Hw>mD)kp72ORE{&J0VC*C2P1e*XzBkrjT*=i}4&zl4hMMVB8YO5DG1M1<m&
z(4PdK&0Etnyi?1|4vRD)Z>ko5Mm%5%n6ep3L+;yH%~|5<{9uFPu|Y?M$SQnR&YZJp
zjP+V6Nqmt$rq4>zzIj2)cUytHhH|=h)4qURJ8b6%BWy{tCOZ^+ffCU-9p!Yt^+cc1
zIrrDnddBqkc>31Uqw2SAQ+yYiE$Pvl;*GDNEH~Bq=i0R3gKP7uyd9x5H>W@<Z*koB
za$Y_4tH{?)PUM;5aETS}Tg<{}Urf~*oXrox(`@QDjhI0&UN}o#SL=(&hmYPrK5^)$
zFO9k?>zU<IV|u>4g7jZm-3s*_RZ5QFv507CiqCbcbbl2_HfbOB5XPD6AJ+Ao#SJGw
zO_k>6jP}=;+vG8S8ozLXTs23qP#vlFCN&Rq_>*TisoO0SwD!@7b+SI9MI~a9J1%U{
z+xxs=p<y%L&r%w2UZ?Bm{>yG?e&kY|P~`K*bvt?j-}t+d2j1Y}<}W6P!(Bc^JPLeB
zQ<W^<F|8=6LKlP7xBsg9*zto1r2R3osE1w?#IjZUkqdCIyljL`rToG0hQ>2tT#6Rt
z()P|A+S}`Viq99T9D>bSc~Li1-)Dk#@BCFA-MlWSbnw@HGIul%=kk5J_}erk_o`v}
z3<|DyxNj?L%M&{+$QXgL>f^&|GN^<_?P43Mkz)E9&&nEE6B9P(9%1uuR!LfudUjRS
z<02gN{7adVQ3|+EQB^J%)+;DIy~iM9XgD%9`X(hoMPq}Bx%y|L7MFrVg1v#@xk06h
z1OM;A61_)7ja`xMFeZ_E;avEe4OWrZC4&;-!}SdK!qa~G|47&^H4k?uYY=3jpN{~h
zL)@$NnPOc$={qaGVv2Q?EHP9H{l4Ng<YQc)rm>d7o#G0t1h!el|10%!lyb(OwYq`7
zIGi2dXO2%a^wA)$XWhJmY8*eq)E7)0OzQC+YCGXe#-<>3U0Pa>O&bWz`d^9gFZngj
zHahvj;Wm(Qp~}MPuBJ%kG^qjFt>!ZI%pAdb-CVtUNc}pm-<fNT48_{~-J?f8m|Kp=
zdb^j1tVeDvAmj$|^My@KYMc~r)j_Qc*+XvcR7hQYVvQ0$;nM846l1B;YA1S7(4ih<
z-Wn4zy0@++zBED>CaOtx{HT%lKap~&fuke&CRCSa->Y=(x&9O8={UFg5kEEuVvCnt
zKF{wk|J#_;f>6*}_?$P;WPwZM5c|}7Op>mjG*H?t*C1u{Pc+1_JV8%$GrWDPzmcEm
z)&K$|-1Pq}ub6B5rkp%GwcI(=b+~s17jQ_1g8x*BCzAN1IUYO_>a$m)4HKpq1!zn6
zW2S(f!EsMjkwGoH8>TDrEGQIH%eZHb=JkBvhn+{sC-<J2$g`<H&(kXuf^3(iiP6gI
zo*l?zwclvqNG(!;Qeo3%dDy%8ieI;DHK76^UGJ@(?e)?xWj`4{hvsIkKEKDxIWIk=
zHw^j{T<ITd@;e)kL@$zfL_YQNAFHS?YabYA)FMcEHc4vbC>QACiYV(yv`=vf7-gT@
z9vIMIdqJa>koxvEoMP98UO;U<vJ3opZ6g=-!k{}5{aH@n3?pNrUzNp^Y2>00K9oRQ
zFKl+%O@qh1dk|)DIP6+d4p%{1&soue&TS2Vy<~e-RnqnOiEC@$4dlpsT@a5P|J_3Q
z^<7Bkyyag|VsID~6cl)Mzt9dSWpLKLAE{B5WTF*H$g20GrO}p~6wnhGEdTO?=H_s&
zqw%!!q}6nJ+8uc3AYAmmDWyL~)LRtr)lMzF2+Qc};U|RMztLQz;`j>-3-b9WL{ntI
zF(4^zla8<gXQGf(4mi5XA08NhY?@1@+AsxAXVF?78p*==D4uc<rmN01@Hl*d4jXCM
zn-sc0lld>)CmA#@L`77bf&5L;+sRP6y!0=amLi!Hl0XmqcX6ImFN|wK8!Fj<q3XsU
zXc80}8mcn}uB#g)%wRKuQ>-<%@5m&g&H<qr9ushsA23pJyAbdRnH^bGkjxf-B3t{?
z{iB%}uTS;sv->HP0!^oN`l>%Z=!_J4AqF>h1k4!x56t)swuhbd-jsiKc8OLon#+@)
zfW~?`d>`uOkXHPTV~xiwhN%_q@lgS1>j3p*ypf|T0>&of3SE3t>FfoGRO~GOJ78Iu
zccBK#5GeMx_6Osxc_-~B@W0c9z1fF5vJQCuK{I#^pcA)QjP=8%uUC?pzenxd*9+q{
zb+OiDx4@Q?MEW(;vC}^Ye-(KpKbu4i7MeH!aLfU_)kv0%3JLk=SD}wi@jbTpzZFUa
z?y;(?3+RPiGJOO?uFiL#H?imFPTLoMZqta4j*c+k@ZiULO!~sixPfn=`wk~-aBCom
zm947L2+UqyQLe%E){E@?Rim>)LP94<S+Gt1zHrhv9n1h;g;-t}c#OtiFtF7(w4G)Y
zbg1+dO>Mn6N}?T}2!<$1_)!{oDcm~tzqrHy2b*x8({iccgw-Z6vwTb{j5}z#5-TGC
Rzg&g7rJ{M`qw>S&{|7^oVNU=6

diff --git a/hamilton/graph_utils.py b/hamilton/graph_utils.py
index 8c3695b..be67280 100644
--- a/hamilton/graph_utils.py
+++ b/hamilton/graph_utils.py
@@ -4,7 +4,7 @@ from typing import Callable, List, Tuple
 
 
 def is_submodule(child: ModuleType, parent: ModuleType):
-    return parent.__name__ in child.__name__
+    return child.__name__ == parent.__name__ or child.__name__.startswith(f"{parent.__name__}.")
 
 
 def find_functions(function_module: ModuleType) -> List[Tuple[str, Callable]]:
-- 
2.43.0


From 18f4be071be6d610c53980abbe6776eaa789946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:57 +0000
Subject: [PATCH 07/99] fix: strip the @config suffix of a function name only
 once

---
 dag_example_module.png                       | Bin 27227 -> 27367 bytes
 hamilton/function_modifiers/configuration.py |   6 +++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dag_example_module.png b/dag_example_module.png
index 2884223d569d7a4cd3bb60314b19f4c741b0a48e..5351fb719b68ca8d7ce09d441a72e4593589718a 100644
GIT binary patch
literal 27367
zcmb@u1yq&Ww>P{o0TGc<DG^CQq+37%>5y&^kd)eVV~|QnDlOgJjdVyzcXvuj!#DT&
z-+RaX#yj2{W4z~#qvODiXRl|iIe#^`-)kAs+n7X{2n6D`xR|g!0)Z9?|AnF7fS)`T
zZ~g#(-O!U16-Hd5{{2yt7K%VTLWm2$RCJ8lm~?QJUM8#G>FEj)rg$vmOVA`C&l--I
zqotAJ8&wdFpYkdzondTbkSJxqxMX06mdK^W*As`_R|!M#Z)Kf8-$Z<ym8JE(q3d*>
ziZ&znGI!50|8mp$lug`njA())T{t?qC(fE$M%p^MCypTgvk)%$%UBrK2S*S+Kx_{F
zOt>pfB8X1T_SjDd9xFnLgg<+IDY4;sM8Qq)ry#|D`y{NXh3<yN#^a5mo~earulOU`
zOmJ@#a}3x$5JV?+Oj03{lao8!X(fB^ad9TSrEDx`YD(vEwsZ4vdwST879QgSk6FF<
zRP}vQQqnVfhF#ic&#)B~6tsNcTF6)D|2LPJ+(r`^N+Y}5FDtOK@|!}-Cxr3Jl`E>%
zj?A+0{DbgrzIuu95b0<R=C^G)f`Wp!q!P7U_8SlMTLTwo8+|IVU!luM;UE9=(X0M_
zIRd{uclqldOd&eAu;7`K!?3lrwJ}-6sZjC$Jz`>VvY@Oi?cH#0wnkat)tlJ8NuqZi
zQ&6yHTCVgaI665YFE8Aj54WTjJHj)RbBI3Oxc!)#np$YI$f&0e9-66~Be6b|qgHB0
zD3QYAf$fbW_*RI9k^8AHtf|RRHenE%K&r>(#rNpw`So?l<?h&>ogLkckpct>x3%Zr
z&2fEGQ;913&EDbR*3Ql^m;`h<BqYB+UcZ%JT&!4C`{h0(?%lgT;c=*|RLRqh;dhHF
zc{hwpK+rstqk;BkZ!ZZx`vYR)`K_(MxVVQ3sZt5Ht9?AYhOkx=$2YFuxIu?z@aD}7
z@p#&|Z{KiVKjd>}YqfSe*_XT0p^zq%5kW;sNvlz6mchotA}=B$LZ=`vA7-~cq@=E@
zO551bptuNkAPjyX@xp1jo3vzIfiAp5B!K7%+G3L*UU)`EhD3^dhLpIt9EWl53lj^A
z+%XQfx-yGNd4?+Y^UA(~0YwbjJk5%b(@)7CMn+VreoR!@EEA8$<0RIrk(Xt@r;&}z
zH|eL=)YLSdC@(Or2oAn0<bzGc%p7b!UW%M;xc*G5vgyxkV}@o$VP;HG5$nT;4~d4q
zbvHG6TGk%l@DfCO51-q@!b14ftGf>$c4sK0mD{f3Qiuj7ON7&9Zjz9YtPJPrxRc<L
zd$vVPWM0YDs`8f4pyc7<5xRm<43+Wn_Lk37e1b3?%8twk{I+~wuB_IUgM$MW)ri(e
zR~PMttu5QnpFa@;St^XJ=a}S8(U1JDDw2*-Nrct+_A)i{NJ>hc?5}=;{l7-eD=FD2
zWtW_sY^<rngNGMtrVk7D+-dh3!p-emYF$T~OAtMHni7dn%2K}GXK`*el26`P85V}G
zUG4ZGBjd^C+1?#QYY<tQ&2l$khgP}O%lVT5153+0^{~HJ;huZj>FVm54pVsIj6HHA
zd2z5dSWsHpGCceZ-V<wmsXO+Im)CWp?wFtL?HE_DUcI<D-NrJon5u67aP=lzuB=u7
z5qm>#?^jr31J$^gm|v;V(F3`n=;Xx-BbrFp!%2t8+VeDxT32qk0E4!#<olcB-~8}s
zP)lULG4eB8t;o1P^){?GEk0(8KjEjKpgVDKagL6TIJmeChtnSM3H%fk6eVj4D$Sn>
z2-!{XzuaTc`!n;?pNJjPOYrCZYQNv-&mH~9yHLbx+L<*gNdlw$W##2V<TDiMzCBe-
zWaHpaX5eIEdL8(HS&-dU8GalZ5)#I0)UBwlu1<%R0{>X=ul(+SJ57hS2nSKoU@#+3
zE=i<Ay~NbuGjC1pzHTWTvyKEIA4A_NSm+KN_v2UI^O)pQ$pn}wyIp+FB>4EAp`mym
zK76=t&(;gatlVn$%J1L5xp;XM3iO)II{DpB6xmN!p%NJ!ZcR>9+R+amWXx|(R%zC{
zMvj%d%R1qoN-i(wl9HAlt*|jlb$>`MT##QlGLb3&Ei#gDyXH_kVtsCI&UmztDmORx
zsb=}>a5g<Xy*~#BUDoAhG6#zyus(Y+uAVrL87Yy*^{}5=3_9{{SLG8E6ITW@@Sx-w
zY>t&oR5=6<W~r?62*dt$2;pKYhSRe2E3$Fg<Fczq;8LnRgvzA%2O1QSzO`^KXcUU@
zptlwlfn{Z!Q&UrLEOZSGz2oBiP45ZflZ9~Y)=x}m4wIvkHxbk5pq}vmprr&q-pi#+
zk#9fVTjsW2K!;_09_agsgIZ)*w??jonp!pDiBK$$opE0>hIAC$OC24ZVO<RJ&))^(
zx#FHXHT0!Os#Ta09Bxl06{k=sz2nxiFnNU`siEa_DAG(tZAJAortX5jK3O~z%3?#m
z4MM-gKe#>K6GvUa7*A9}0+U`PcVRs*?d!)74zh!}8f>i$^{O{A;-{&Tx2oC;>g<bj
z_e3Ht|6J9PiE3Jo_Xza!^UD>&6U4XnDh#4vV+*@+o0!G$m#Vt$diz?P><sq>y*LqL
zL6$s0(A^}pSr>n8idGiO3s=+O+^$GgBU{oaoW!s6wtn+%!4%bdGWv50x}&*QvCi~Z
zsHvv=>{PEud`KWCyG__0bQ<_ZA%$q0)3STJ?lN~h-xJ46H9>+zqs$`3E}CP&9%-<}
z=<!A+B{Nruj;%v=oXOx=ea!yy!JRvI?lGt*uYZLnC?>4VbGe<cxt$&)nI8rbG8^23
zlQc|Dz~g*!f))MzYL@jPp@94Ia5|-i$w@8L%3?+eBAb!hQ+&|hkk(G$W<!m{`r0TC
zUsA06L3*6*Z_>Lxg!4!6xrzDBdm0hTaJ{*P#g%p&40Y!HEX(x%dN23$n_t7ilGm-^
z0>nPZl8l#{&-W&L@{i#V<@s46rZfHicTw$pckK96wL;<HS#)yD;486QxVX3v;7S;H
zsua>@c`LEg+6w4Y;w(OiFu9#zU7R24X!%fh(o$mD&K;c}PGi(L1YOKiukwUF&N}T4
zULhpP*K5Yq@_GEPhp1NBGX!XqHg}Z9<O)40lz0%`yVe+&tyZNxoB;3VcO{xDPQar(
zI7!s0Oxi`uM}C3bWIQfkqpaL|@pG=wT|xXS*Ex_e0v>S-$&@i#ns%fT!77av4`Dw-
z8&&`3MLxibeEjr@ncg7KV07-lTSKe2e>hEVa80wyUiv>C5y$T)@#NMmEgw0v@8P90
z?V&W4*h1)X==dW|!C$|=PY4dqZKUPE3h);b6YB-w<SY22o*IS1t}7%swd-0;R3Kv&
zZn}xfNF<gGb7}b`S+D(I6!-IEdpE6ydK1r<&t`Lu_XvNEY>|rj2c^j$5b;Qos4&LN
z_hrl%ua8FeMGPU%{x<5x3Aj)L){~<p7;QoxoN?pM&l56jNjhT@rxbC0?2grKoU?RF
zb9$#Vw=&@H$Zuzd=ZiQx`EFtxb>PZ!4<dbQWnbiPnj#(Afb*hD)*Y7xO%+o*Oukij
zTtR%PS1ic04OX8b_nT;{b;kVeRi%5Q)m~4(b9qA(=fAW!@!qY=JBuswxx?acesBNa
zwkpr!Evx{EUYnz|vjx6T`sJQP%O63ZomKwdS@87n6b4JnKIY|*x!fTC#uywECKeu5
zvbxD0C$e4gW_18V^SL|z`{vMAg|rX18tdZPKdUMDe(}@Yn7E$lyyflvC-e|2SEp9k
z)eI|~)U?m-`+W;@-t-P*+;2F73*R0emz4SkFr+Z#Ao5EYf&#RzBP_0IEs69lN-b_r
z*ESPeveGK_=Mq_H-=52!e#yW7JGk}E_MUcYuIgySa((HvDwD3iX;r6@49ip!>nx{b
zZ>bC8)b>DtOPOHgar=v0Z7v_J@Jv<Jam4Fd38fCD(wmQt5(U2X#K{lZG+$!H+ikZ^
z_7WE#u6${w(T6=_w6&spR(W=*P@PGPy27-_PR+klrXNX3NmtmeagjM=cMZ~yl1)}g
z9wtzr?ioJj^^O6>7W?hC6ouCJ#pB}i%TkTKZN5%*XD=%xln_V8f6)0?M?UgJ5A7V6
zNs3F0Q^5uBc?Tw%nzu@w%F%^qe~(q}DT^*sXh}6w=MxfPF&86qKi6gM;<1(M%Dbp6
zht^U@&`ytS&cwozS~l#c6z?S{8^m*)=<eR!^}Bb-aGcq{YW!5OG9Q!)XG72_=5+tb
zGkQJ0d1AUrv)^GLn5Vg9uEMF*hhSo2`k_=7M@d74oISc*GLI|hd!|g8$5otQOGxi8
z5!RN!!LZkdXliZwGh_b%p=3JLQEZ;Ze|2!G=R98n!BrP}Y!Em|8hc4^qp<nUWwjIB
z{PTECE!9AzrDZfig)Ur}FW_2zAGIZ;uIt6q&GXkB_5`dsk`hub*V{Vxvg@8bgYIY9
z{0vE}puoyd<v_1E@7yP_l6PIRt$3^VuK?Gd<$EP-Pu{6uh`CJ7E2%IZU45fb5Yn=P
zK`!k6MA<LN%<J>>N{4R?3vUMtc{y|UX8tk+tY^+@-lx#le-_IVr+XYrJgj!KXml-(
zJG?7`P$_HP6N>nKS(5hRt=-7bmDTnBA0{>d^LX&t<+E``yUNx>W5Sve#q}#(mnduN
zEDe|1UVe`X?<>!R(`vgZ;F<qU<=B0UQt--EuHy4MOF?8_wYB`4E(cfZQ>#f49_FKB
zZHtnTYftnQB4pfd;yP1(UF@%$vu|T>u=FZKX549YJM2v?;$6HXZlQ-#^0Hu!WShg7
z>*xLRo$(sdy2<f^r|%>?bIH(5?x2}wPJd@aP-%Fa1iRIlBYyao+>ZAs^N+IY7f~8?
za0ybkBhGi&L!B!ohx6^owH=Z}s*ER3HZ(8sTsZSo7%Zo=$Qo&S+FnU|;XJ;i4YSM_
zWv8V@r=g*_a`h_G_SczIV`r*teD~OG;$!zi0ren?HF3(|poe-oS%K<#=uWXm<*E(2
zTFv_mtQ{()t@XW33XwFI{0+%(#ib-_!_E169#fPPka#A@VPp<ucWI>j+9QdsH1vP)
zB1gg=sMoVrYa|l+Ju0fuW?6>EA>tbwrW{tz(|i>YD#-{+@@LO<);JjT{hSCTa|Vsf
z^dxeeZ`(ZG+hrvhePV9%%B}3Mgdjp>PG6sym9@XU)(gi=^26qQeo4uqc#}S0OC256
zh0#zCGP%-?_0VX*NFz<N3k$+}f>&la*~#eW+3@b;b)EC-a&gy0a$?*f$1H=s5EC2w
zL?IPxIp`SGp|%_Rk^u5XvA;`Qe+^CX#RqAUlamu5TV9P-7Xx;*ucl_TJm!{$@agI4
z|LI}ZFwN!=4>-&oaOPe!bZ(O|?)k*48^co^k3#Z1_~gRmazF4|tF~(;eXvQ@*j+Mh
zLzY7aZR!$$UhQv;D*RiQi{(N96lkj%FFRT<3#i0SY1<K4YhCrg{&QYv@ZbUdNbsnj
z@0HYg8tj`lZ}O7~#KqS|ORt2#(DG4uEBw5?C!~FTb#?Y7z;IjAK%7LJCx85|z5xJP
zY&`WbGTyP{?JIR0GU7)6;Hw1%#cvls6I5c0qRX}6e{M?1%j;<gAkHt$e{=HZBINn*
zqordT!vGRt+Xa1~q+cqIqg`_Ra1xDa@%^s;fR#8q80MGSCve^R9r?8$q2;5v^1Rx`
zhmn7)BZ;>RkZ+3hVn-#mICM^es3x@671jnaanHpYoez!*r$x=qS8s-dhS-uSe@K&(
zUW6L`VEZ=)y$x%39Jf%7^MNgC1fVWDMR+U44Ec@GqG(1M>AB(U`*VXS>}hv4d#nuw
z&|WUf>^bG-K8@uGzHmFST4=kwv9a;bGjZs{^qCG04kCH%=zy^JU!K_*29gLLODGwS
z)v_K;PBqpl$8w%X?0%$tMjbUyK3ooEo5uAJili^B|DRT`Tf5Kb$UT+uJDP%X<x?ci
zY7K6w<Z9{;W-6IY7kpx%kGS&2*x0imBO{Q)wFq}^UQ9|1@gqBjL95DEcYZ7$MQ;Ns
z0CZA$@gS446w<J7-GBCWw!zEO#|Q7h12JLYYXt=bmDrmBEF2sy4GmXBMMXC@H%nN=
z!*K+wGsP$azbU1^{s0oe3J(^!Cv737)^a(hE0ZDrL#5~6^^pISJoG<((p9aSUsXhd
z9)eCn&mBR?W%UR&gVEf}<K=j9F)`Z0aTU1sKvG`ADs2#~5?+Ifz*$oC<Hw_zm>6^{
ztft?;<>>8h+`QSJDovc2lvKokckiBeMTJx8`sU`Q)87rX;0b;XjtIl9DCA822eYza
zVNFev)YR0CiHgwfSl)LjGUUPug@wI3$bn3yFI5iPOBsQHvI#~vL16e5%j>YKSO?3P
z-AjWVTm<UPI?pw7;ky*E^Z$*0=EaW$?)DV}kNRJ$&VhMuHIb!~XT7&14S4X)D`DZU
zF){u*IXV9z&bwY0pM@4Svhr#ZEvIY$L5ZIKtyK49zY*CQKrE`M8I#+H1Hw&GFHInD
z*;O9TD_vt_>bO}rf?1eubG;Fyy!Kzeetpps$7e_SS-IU6)Ial3{=my$QS4vDLjg%+
z$;5D>IJ)EhN-*kze4n-xw0cxmS7SCY#3qRb0ma1Uv0D=!Ei|x$Y9RRbvERJF)f-s7
zcIbitE8B81Fa00#MS)h3=}yLDORKG|JyGWoKUL$R0H-xmDXZnj%TK<3esbY^fBwAb
zj^U2sLS6x~lAV)-w6$#-ACCsCs8n%rerj~wo$j=^^gCOPH6%2Y5Xzvy#SsMp1T;M$
z@5dv0(9lW6NiMmab}4=CkSU+L@65gWyD{3xyItKlS>>=gn023kUimFh;Qj4s9i^?A
zpP%4^d1I6EeEt5tEnl~hiJje`FIgOmm_tgbdwQD8!{buw^fm^@>_~xra%!r4lE`h?
zj5l9^;*qXh<IG>GicW5w);pc4UT#Hx=i&1=7iY)ndAv`b`h&i~;;^L&kPP&!^73*k
z&?~SO1%-sv^53AvyZt3ZfclUOsu=15WciOhy>Am|mec|JjsfKcYFIl^({z=*xS?@M
zPaG$ul{~Io?V1i?!+R+fczAfV$4kWU;s|GF=kkh*y95NU939IuHCOvm2zl+Z*Btox
z_-aqq=))waP7k+xzKskJfaurgbH|S86I9nH`+gJxqa!14%*<kRBSGCkfKZWXfQ^lv
zxe(I*`}bY3Dx%+1kwHS}3FaYO)^GImLN<9olsj>7u50R)h<J+e^~p~48nBiMe;IUg
zTOnMZdlThIivGg<d?u9ah4EvJ!f6m>#a(s|5N$ccNz|>*PwYTnWqGOrB<y|Wrz+6W
zJiWYvffCZ;;p2xH^ugZxC<U(sveTbgAF^Gb)wuZhO}`>p)e7HY@VWd=Rx2_@uvtue
zZ)y^L&d0a2x2F$cmFv;04~U^g=|EaL5ZNFMf`C)IQwnm#I{wLQ`Sq7s$~pN(MM*A)
zTbbi>UD2FI$GeM}Ec2~F%M0zHW@E*EAphzb8Hv`ppT95mLG+iH^xsfXQE@+-y@^_M
z0Z`Bki9sIAOL$#7(HY(I@#9A;YwO1#D6y~6<^kFB`|>5p{rp5dLsmgqSs8A3zU4GO
zP`nNhCQ<J!6U(C(;c<4v48l*6#bjlqh+fSG?C9^2k)WhRq#eQCZ-EQrwwienw<do7
z{(T=1?sy%xl0h<4&rm>@OV56~uR?O&gdh9Xty^QoCZYO-@7}$GGoquR0-vS?H}qF4
zEOaTzAHv;l`Jo_}iZ44p45wGY{s%k&bF}o=L@xYZ?EGd&`Vs1uoOSd6Dd*##G!<CQ
z3Q|jb|FO>GiIX@&yB|9bBJtu<S9B$IQvGLN-$&fsgc=$kqyVRWjCoGr(-!&9Tf;s6
z?+Twg*H$@l-rCjtsKM)2h4X=F;P~>s>EDK0H(_Dn(sdvgoKTY-CtXS4EVb=$2Mu>A
z$&Hld!BGob2U$tM%l*cS9m964_k#E?^eM1C{}&cT>~q8l=;g0pfBnZ&c=ALXrC8ZY
z(fH|~9qm+(<Ur$Na7>a7yak<bf1w=-s}uD<wLJcdo;LrD#M{&JPdiQg+p1c?VNZ2x
zHA}y3?isj{du|y>kf5QVnN5`6wY1!R%1JAicn!qGu2Ml>-YOCY+VRf6PNTK?AaBm?
zE_R}HyYzHg5IjB;y1BVYe0wHcVmg=(Z66w=dIo3zII_%a^rMf@&D}mta%&nEmXLUl
zi^%EHv%t%WBB)=9X=$S3Me>!{()g?Z)tiLt5cN$1VG#`KeR(=Mm3He9-zW>^Y4(ul
za`?^7%{!ZA(=0vX#BOd^C&ujF%GZ%|an%IaRV3O`QDFv!g}vRHtZW~=brHk8Ai2%&
zmQQc#6V&4XrI<p+u7kh_M?K%=&;lBTBMG5jtM6~yjd{NUzl_{Q+{dB5HxEb4fBAg!
zxRB{L>{6}JyUzY@XdoFAN{(-J6sr-oR;6u%>7>Y6`8GPJUQfh@@Ku!;J6H`%@9@`c
z&Vl&EX0g!$dS#9rX$Y6_2iyk_+MpNNl6tF$goLb2*9j=3N$WR-srkp(eP<cssKk~;
zFX7@EZg!cEXLHQEPRe8Z25^O`CB2^zJ}tbNE;I$`tqe&b0eb7D=2E9fQc{;Yy>?uJ
z#=n3<Blo`b+B6x9_&@k*S$Cc~WZ%dAO!(Q+(a|52u{7AH#AbX_o7;Hz@h}wSnwplo
zd(S_k#l<P+Y7(lb43m_#+cwLUS!ls2`eykOQ*MNm&p8YL0Mp8sJf!)-2Y99+{SDa|
z2`v@QN;?~mO;*uJ;Db@@kz7c<+UqpJx)C8E4QcW25{;={$5t~;DA8*O2qdffh5Q^I
zUL?PpbGO0tYbil|40`44nU3%*tPATXRJ&f6h@g8lU4W-rY5N33)X|7gz;;ovNZ*<D
zsYy?<etdLehgTD>J^FFls%W3yo;_Mr#6SU(5c?(oq1L-Wt2}Rf;gudw)9&xDOn5MX
zZb$L>@#9Vw)WXkgZ2W^%8r%8+za#CD;ln<@kMmY<lFI#fvprR#miw)V95W11#?0z!
z#yV4>?Ml2y`tSlDn0dmrtQ-vDu{WL_9UmK1XoCxB>bSdrfzoVE%|)TWG!e_C*pps)
zrqgY$mD+R{2j@{E(#!GH$-CE2JMaA(Hx@LGPLWo7$nW}nu~N#9f{W`r^v7kF*Mj)e
zfO`?UyMl6N527O|IjA{0?RGovk`KI|NFzkAbNVEi7I<}LZ0(bt-D1gQP}g(JI>~nV
z6e}_|!Qt6zxzY1UNiajJmH)i*aR1Is`2O=C$!DcGu3~-q4@R=OTHU!LRDl~}D6G6t
z-_Sv{Zf)O8r&b%NiS)ff#l(aImANB=A#45h?kfoimdmMIX`Tfb24(~A^an!4e*Kb6
zO3RDak8JXEEQx1!x_A6Qh(cc?DsoY^C3!(3jEO@oOGbJ@G&=6=RBTiKq;NPk)bEx@
z8}c;mZqO55GyheMQL;{z44X3>q1gG%+o-z$YWICq3jxev3n-3?hN=MAKJQS@V`g%+
z_txQ=GYfMPd9or3rGiw5mh!TB-6PVe?IUvbsod6FogrN3MHVW5Y2)9`vE({3oxLwT
z-u7S*x$=JT^|^zfH8*K?A+2O`>{Hx7=)Z80C1ZZSj&>huI`G|)v@+kISsoOzEA<6(
z`YpdM0(ZkVmF(h<T*yFsqL};XhJ}S?JW<Hd9T2@xxq19M6~k?!f)w{xRnGYQQ0dk6
z`%Zfx?|5jI=h|zo#f1`5JjdYixRF)3c;r6(a`3O{;nv%dL#)SSDFM$-K~DfqrN6VV
zgK)GQ5eX+MVdJ@2ZOt@g5M9c>)GEo-`NlZc6W>p*exe&hW{_>p#-BT;_y)HXI0C4s
zKa6_fDzO&>s@zUF)`#<GC@DR^e}4dU$Yi{f0gS=HHTTbZ%tIydZcF*+%StcCzD|WL
zynQ%<G5<4`=}J%BT&tV=$~rL)@%hK^%RSud4qx5sE)v&bq<n+s^B9PotPVMfhA%Md
z1MRZZ*bj*Z`SG2dpMUXxv&{I;5q_sotMe(YmY=yN9`ArMB<p@R@}$=tV64*kwOHPO
zL!<cofrEQg|B(e4*Flg>mVG&%7s>n^4W8Q0xeK?)nON?49GUs&FMiZOn=P*2L~i6w
zf<$I~MxODP``A(^mFm*N&dPRM2Be|zggwXUygI9k5nT{@Z$4tDy8a?*KHfchPEU`e
zDGG-yFH<ElDsu-pSbBw(tQBzR=ZP{YyR-d%Srp#^D{O9ky>n;26@0JRPj~o#02_FI
zxgGS1`13mR5W4|*_U5D4>Rm{y3b+1n50P?<TIL}U&&%;zO1><!n(ZC^<clgc3F@(|
z`d(p(w@9aSW2UcNKjwh9t*8y1<Jke)4|P(bdzRy^m5s~Bn_Fo0YIUC?`8VR9Uwl*E
z;v2O(yQ1T9iN~=>kH7&P%P2Sq^h(`xK}&$N-XbFYaR&_3+dN|Mo=wfd%g0=BU<C87
z=@}b~RmHg-jjXel=(l%qi+_s>X<+<P_bNj%F)gnr-EyhWah#v$05;Jlm(i^~yH<fR
zZ3oRgp;UTot*+MD#l=^eniIs+dC#t2zs_vEAO={rz0`ah&^`|$I5=49JJSc~R7}Rb
zk1mep@8oRcaXp;>_=t+?x{#32+=o5U^O0gRw1X-0&!<0TZI8;y5UG~o9r@BGlJqS-
zIv;}zm=Wg!(VlR-5mv{)#OLPq`~uw3Ui93Jm(K}gMa0e1%$C{Ex3{;S73tFlOub9U
zQ~+P(u1-%wZyWlsGMUw8-*tDL3at07hue6^E97^!JkffSrEj7Pp7$Nt>=h2{)INu1
zJ^jeGAP%%&nniwVftK&^B`vzeD^UW3$LT%9rt{wfx4h!r!8I-$)+0=nv!1sVlk0&V
zCX(+0#=dUZwGO5@WoZsZhhAaLG_8M+=Knyh+Pl(xx;7SIcdArmq685lA|fJNyCw=C
zd;uIQtZ$`GawI{>mv7z}i+ut45a;~)XX(y+ObJ1}=TYo$$7Sioq?Pm(6NSCaL95F-
zd4zDRLgJzL%bhLn4E}P2YwZ#Kq4OXzPbKzc&J@*Rod)IM_C&|)H1lSO2SkJ!?wpMJ
zz&;=-a;I@S)7`<DW_}<+=2?Kv;NLTg&`2kffY2KYTQSKlR)?i))9f+phN|EC*&6bA
zFDecy=cCA`#O8d1f{Xw-D`qJN;8ID<%*@n71i)!$&MWiR%I_qQ7v6YpLNLL~!J&0(
zDh@3DLW@ZrY!a>)K@a(S{r#`K`M;(&mQqeV&rc82fSyO{MRQs{gvPDl#^vJZ$Yj(_
z0`&O<K(e8sAub-Cxy{Yk*@evh)Zq#j&P@T+9Q6{G90gi@KoU&O`zu&wS#f+WE#Ltn
zt*sk|hVD5y97<W{lR(1a)6F~7&!5MDC#`F49=pk`oW^fnTvATF-#m;J$whFgZl~Be
zr<XWdx+LmdiUck7t@o~FI7`o;s@e}|XNS6P-n<d(^N6kZ`d7Nl+lFs2NI$8CtD;=K
z!nq5}?t$Un%k<AQCzs3pO~r4$?J#SqJrv<YnQhQ5@H~|65w8sUR@+wNtO?D_sH$$5
z^fCsNdxI+2EbIc+!QDF$g(-ADcRo2-7d<~Yz_@+e05mL=uZ>3|gRt6N5LaSBaDk1x
zIbPN}Fc4<HIR;8#(6?{*3Fs6bLEpZ9>)sm^llJB>_x*f*-<<y492p<)hj4^UJbxEh
z;{bs5AQOW)Iz2Ut92621goMs_)5)KoZtff&8Ug7pHvaulx6!-6<I<g4I!ahf3>^d&
z<tpjC{vR)|B5q)lv^h+>iGmWu%ye}5WOb^B7xVy?a|nLO6d86o0yBdf*g7#m0zNX2
z!<Iip5Fi9|y$^Q_IP>aA0R^D+%=2nz|G^wtVsnOWsHik^zpt)wy2abqoZ#-AaetE`
zUG5DOD0iHr#n?e^T+XYYEVQwu?g0O!PtW4{GuH4KG!h=$GfGpk>vc#Cn#We>=cpcE
zp7OecEX7u3xYs$(8ON>n1aUmUuaGpZ;HFvaP{~a^IRxLS_$1$F?QrJHMa5^D*aSIs
zYp1&hPaAh#bUBMAmr%E0;gmpBQ1A*dhuIIf>};*7h~G(~MUFdq061GwEZv=N?@tBj
zC?Y`*rTuWJxE!`f>dtm=0kdVLk%^gE>iTt)2~>+(w^M5nIIC-FxNTQ(ZWFQ1%>10N
z!-6~ui}@Ja#o3;$VNYDwYJZx^@5JlxhO&Q7PYbA+cXZT$xN0(8%Xe{c0XO0bgjaa%
zH`-#jZMZ!6ZCWP)m7w3cH4kbFaGw~U#MWyAPoluUhPaQ@?t)+D1_%YTD!C*;G@GXd
z)&&gh*7}t-29>@p&$s0ezeMw2oA@jjt5L9-M)q$81+#r=Q0A}x)*u!$o8=ZeD2e`_
zM_h^Vq6PZrbb~z04pB2R`=zGY7fajsgCCIHsVA(vx^E)?jbD1LP=C@iV6HfCG2J<L
zX8-5;#O>Q?Gh->Yj>r!B%O~^tUPTv%M%#qs778&awf?=xsoPl|Be<rsZ*;t$$5m}4
z8aG#%Uy3#}eL8zqVn6|<8lE`cu+undv4^TOyL`yx>FE8vy?NlcnTw!y35$v<<ftz_
z;bPP*uTPQu_JH4&E1drFQse8tqDPS((ci!S>EfJD-&$V<U43auL{Slcc6OGiRkPC8
zWUy>=|KvYuIZDxm(B;~oPK*>8-4XJ}`q|O(xyI#?#cB5~5r>)Ym(I&+pUZ`IJPz|Q
z&o5tY1rT3ex)=TbGEfHT9-!8%P2K2E<~J`<(z@=%A2^YzR7Vb78tqMg;dR%cB#LRQ
z_15yZSnv@^rN``l<p;?5;bv<v1qBiF?i6IP0ua9X8XS2xv!NJFu(tS(xe#gCCw-lR
zelHocBAFXP(`kZ%b7qQAWMm~r5<ZOgN1IW5doAA9>}8$<3E}o{LN|uzuT#Hp7|?Jo
zQ^tZbcD3%izhJ_P$fyq4Dc0j^6_vjh+Cg4QTRi3c6{RN#G2(*~vo+z$;jHfB1UDs>
z$7)WK$gVrbaj3*hB!@XsPrN|d%TG53G8BBEOcsCyBN0X$yh!%e*qHV!N5i^OU|{63
zP<}zd&!d!Xas&t|h{PmzGLe;;nI95@d0U)pY;3Tb0|gU)K$a<6z2tLm?`vQeZ6Hz_
zL+}o^x9#RwIB3Ag%`tYsAt0JTO6l#9TA4*GU8yaUc#wYHR_WNS_Zw<_$--@+mO9tX
z$^68<uuIiVdhA0JblKd{5yf0o*Ew)}W<O7DOUy;W=XQ0_+{YoR%&=pZJ(I<)Rq9QB
zIU_SLBR$vWms7H*A&OZRSMQmP#%863RNW?#nP%2W-<lK^2uf@jKll?h8=F;n-;=|D
zigS6vpli&*@Fep#is_~cV}SoE1K#i||NdoJsrBBz{c`Qq)qz%pK|hFTNv&J(?L62q
zDIHI@(JYZpa9up``FAa1yZSPr`YEJXK%gve*w%igS^ffgFT3f$3^dJ=u`!4t3BG+x
z$!R(D7BWZv512oK9^MB>8|wh%Iv*%GAY75sDQEk_4uoaWtZ`-+sxawKW!7)O%GIn8
z1iB6CE+soVyFvvBVg+ue_K@^oVqt0M=)mOU<b?X+*nWI=Z1bzD3l;h5j9^g6lI9kd
zkkA{>)ym{}o8quNWj0kE2?q+C69OpOQsC$mO2r}IrIVl)vsq5X!2MHNcB%Xpv;#4#
z!Cb~Xa|TS1_I==@vM%{Q0Jx~gU6wl{eK>iGhWr`!y7gi~QC@^@a#wGu#q)BTXp!x*
zg=m6xNLf7Imv~f4KyUECYp)P0&DI1u`N=UW9q&NmFOM?b-Nzg!*E#cU=xR*`7TP;i
z$!fnI3yTHfHY^7x0C&^7d3tyK&X@iRw==<9pAl+sy)XYVJk2&Q+_dWHLJl_7PIKfV
z6F4ED<zzS5Ar(8nx`#BTM^aK#;}R1~LJSAk`VCgYUo&9z{fgs@Ht38ffLs?;<5=Bj
zI;Bj66=+yee)EgtR8g;K@zv}DbwFk9FC^x)c&mQz-n|>iTGtm-rSn*rnBD-S8yOwF
zOF|N35D5jp&}q*Qm7`HFHN!~Ox@`{WL7|HONDrRKb}Q$oE9ION|5o1dFrZhIujvpZ
zz2WUWkgXxmieimcR(-BwrZQ5~ERF5W?BfTWX&x!cd<>VwyC;QbW}(!`!OUTt-m@6W
zrdH;SPlkXSbk&9;81LsLYo>H~YE^Yy2yk3|qm=u6$sn68Pykg3!ZU|^9ixXyRm|HD
zHI%^0Y-nis2=ZuF#OT=AZu5N|#2*O#NsV)Ha|5oa2N@_<_xRuB)7-gq`4mhDG*Z^E
zWi!yy(soiJ|FiOp0L8ddDOx+_HLdYL`d!#e^DDozMYBoxV}{6w@^ytWRq_H$O4w^_
zYYE2?OrYUEefpHkhI;*GP+_8l+n8|{t@D({gm4bo7uRa}UL{S`5;)Zn$jLsgaANmO
zFrPe1kGra^HU4K|r|!W6qB-u1EUB`pFCngEf$K|4-T?u(;XeKl^uip-(}{=slU|zw
zV5Z_~M|XE1oQ|3K`A=zSG=NMzK{bR((=tyWIHn+JKLp8}5DXMfi;4R2abg=A8&F|b
z!lcE;XB+Pbyagv=AYJYgFxi5)?YPc=H^foM2JmeQH0Tg2Nh>5W0d#JuC^ihxw!y{_
zg|Y}*j{ba00F<rXO1pRd{{G*29iBl?Nq_?+6~h$_N2@@;6&pOVSJ52iRyH;Yr;h0w
zI<~gO%42i`3LS}9NaliSgNOr#&g-xG?PCX?ol=h{i)%VDuSHkD7Kwk~PlL|m;0;L`
zl=eWUoF$VNte>G&_OiD1M`vBQt1OA3p&{s>!Dv@+^d>f6>JWe@@e8cjqVt(ZfYNZh
z4Sy%T0zV)7Uzu1Tus9;&Fr-MB*ypzdk@Y~W87(%!gUf4x6$BMN<L^Ns>{*nc4|2Ow
zSs4myfPA_)kgCGX%WLyz<|U*|8({~rX0tLg|LpI_BO@b|h>&u5@D5y>rj`~K-G*zW
zW}{b<CwGZh-lD_W4;>K)@*J3C<p}bD{@7=SuC9VVp4{7?)FoPDyeG%_C<pI!(I|iF
zn%2W%IK7a5{@K_lw60*#($a#9gHsRHF~6{|0Rptd#0Ssr$Md^o5>Xwjro|V6L<;rq
zAS$Qu@6nDvlqu24O1q-7A0_bc=4LOq)4x0Ws|u*16&p)xw>HqO$iZmt94Vi%0J{RV
z2o6|3P=bLkB-*ZK^EN~1_ovsb`@VsJEu*86kOv)d%8+pzGhJWDA2{YJ9t7P|H$iUM
z(Vdx{y?JnuKxKG?ccKr}-rt1=lA2mtYUNf5bS6zrO*0^tLq)YF^(iSSStB6H)7RB~
z39DSFl_wr;o%ov8%F3$#=g*fpyKo1q52sw5#?n$zOOzKHzlU`F^Yf<dO791NDe}3R
z+&ROH!brI{OY@GAetsAR9bvj~8zD#fJ41m6<&yx$uW;CoTPq<GG@b)kxG`N9kDPBo
zS$!vm+d)-TE~P5=g1*@V-;cSp!JeT;-FaXOC?pSv_mz%LyjGRH$-(&FEZEsT;YwRR
zzx_Tkva^T7Z<)<Tn7}Dn?M=7}!cWg&W1=9w=ygN>K$S?y&~I)AK&%x;62Oc}Nb};f
zt?dSnWY3LE@UTxO<w`zK3RgEb)WL(BXb8o#_}wtJP~(|XQ96#7)`!R-3Yw**B}+;Z
z-?=ALR9*nGaq;j*3-oV-s{FIBF9d8Jo0)pFoICh;6Z1o5_2p*3qQdnOOgJF3vv`%#
z)44m>e9QfK@jj5#Pc=1esrSV&<zfihx{-3#B|t%2f16bd)_Hi$UAiba$bg<ECL;qZ
zoCTGl4idO{08Rizw6hMrd(!$-f&keJw;ebTOdSLb-yiA)bG1;*=*^oKkZFZ6gYv4X
ze%Q}g=Oi#V(C_?Q5MLQ3AnvYd`0a&4m`EZ87hX`k%t9JmmzAlSDiOvn_=#K)2>49k
zCHMhy@e(N^5MJob(-Gi5`y&*fqe~%-jCg`v7zXQjCF;Wmv}ezrfxQ|JcRus{1{%4r
z$T2^e56<;huV3T9!VW{25#O1GL<OHXgw3-Tdv(6e3#KM6j+e>cPUktJ>1$8ax<wzX
z598tD3Q9>~{r&s5*nB(!L>N=@vCDB-SPTpdRG1~}0F(UleQ}ZstBn!nmOxTTC}w*x
zT<#~UG+;Ua-EVDafiVA1c;+9FuqGX*7xU^a`qW!DLF)oW9|l5r8(xJ{iqOlKFa1fl
zaUtvi1||615M<-0eEj$$fJx-;LOV%3UvC(2RXl2`UUj!)awev)5K91OoLm^261ma~
z!ne4T)Z31*CyII6S|t;3(;;51kReY6=5vzsZ4vF;518KHr4TVr$vs0!wS#9{V0DTw
z`%&=o#{npk%TZ?ssQTg4r>j6WmtkLLvOohsAt~U`GqbZFpdkeY20FU9WTo0mA8w4Y
ziUgAQLE5~uv=r`W5nv%K1Msmw!&Sl*O&a_^SPzk=gPF{rR6$0ZB@FD-r+m))Kj3G@
z7L!o`AWSw>9N>Z1e?YN}9D0I}>FVnG0F(xR(ZlI(uzd`n8bXqU)pUS%FuxxdC9Bm;
zJr*S6Wn*n9n>rzdHj;m&QA@hrTwOqMG-`wm2*|`uz{B!9T#_cpq((cqNXm`G(wRT-
zzm^A}AfKI|M+$iGGpHB88Ohg0oqkXo@8aSnMvXiH)dTv^4pc`}DX6I6hSqGmH9-hP
z8}9n8`u|omI6nSepfBnl5P)=W5S5h;f(Vwe`CR;s+kMo<WDqNvb~_}6&e+9diG+p$
zC8cW3!EXFMl<oga{$rjyg|xMa1*|J9lVG5IeL&XpQCy$<@2~|zLPH&o_&lb`^IB={
z#RvZQz_j7E0`<}1^YJp(=f^hA*q33I+Z=-uv4VV&OC%nlD4@&AngpetP@5gqtWoU<
zC~&%5(habWg+)XP-~7D7f4af?$ebk(1~lfEms=rVVgk?%o@4+GJBG*ZGt~d9kXsM~
zwS*f6mcTOo0c8PNxz*MLH?>Sm8;r%s(c%LKL!otO_K@+o`UAXF__@#Ca*qPQW&~__
zNEti?yF|0X+6&6?a^<<WxHyXEz+0ich8c}04)f2^(Zm3&72Iah6w2HHX)OZ{K$ZBX
z>cwJqujc=Q4ZwgAK#fehz~U6xXvZ9OX4-8r^J|ei?Jv3?^7}5Ai?dmbMgU(-f;`ql
zu*cC~8%Er@In`Ac&q9J-cPuiH+edU<z%sZUp80Ou@^x~%NjEZfDpMj}s<o#l2=Yzo
z5iU+ncS%W6-lt+Gn4mc)H?V%BrM0T)xOvHEyuG|Qhv67cxS_LibBQN7*ML;$fp!O2
z+R%}`6xz?U>)vgMyDP=Rr-Hf<TigZ&3Di&!2yaT_SD~wY032bGa_;Tz4N$}f&JGhy
zhh=AHk5oA@!Z=wfXic!tGt0|2e;`j0hTSodi{?zyYyAr(esi0U?Tk5IwyfMIZW0v|
zkxwvHuZtCwz4L7;$M{J57GwwgoI_SW(W-PPWeNuACQ+KKyqEErkBW*yi7d4jC+~>Z
zj9<WVqeK=kDrZ1^e*wCb(hzjp1M+xOKI1(woBx<PBD!-Y2y3zL6dmFvN}XnAW=tF$
z-LIdy8JquW%;?3KQfpS<VHSMokC1igO%S??fT67>cmdTqcRuh(l3-d*v)VBjQZuFl
z{9s?f>{Q`oUS+Ffs14=kviVvQH+_aG`yOkzFVD6{!t&mSn{y8q0>L-Ca3_CxVdU$&
z|5g2fsIMZA1}qwt@MGlCFeMc=D#mSg=|n(t=d2lqAo5MOIN_%(&O>EHgZCjISjtZS
zXZ(QXa_UZNUrU6ubQFv0u9Uy_u@sJ4zti#&gfl9T^EY4s?I&o4WFBY1kfWGgS!sh~
zsf0>}eKQ${-F5{KV|Jy3PNFad*6rJ@XR7MzeQC1sSY$`g??zja73rLIr^^zv`5(Zj
zR0ZTsnxG?ax%@TrUW6)$8c0G7&cV6Z0lJB**vM0qZZLnro*_Gl`uJfBln9Pz$AMJ|
z<dH*l{nhMO1uj3ca2TMW@_ZCLY|9(7LTpwp@k_D%3nH%(to(#x^{d6TtT4TjK&nyU
z!W!1&V%K~a)Wub|_Y84*IU@CIk5=h?ZQvUYS?lm8=OT#F64eZUe2JGjGoyKbdYZFn
zX<Y5t+4VDStoHwe1KzF=Am(H-CqwbPu2Ag~Q>90n9d8@GZxeQ;K$ZsZMS%7<^ZzvQ
z6>-{i3nsa4U_E#r8ymZ}wxoorD|<^_XQ$hB#b%?pz1pV(eA-bl6y{d;_ANt0%I^;R
zIMejWWU(zSV_DsAa?LxuFSI8>T1;G9cF;t=8%NXc56LWqJ83laeO57DJ$Ce+hmu>r
z<#-aOwwAihn{mtP$#M)x#iRT)P%^PjO?en9U4_M2Sp}czJbuC)Ok_FSpI%#6b|C_;
zt6}z(*r!wz6>_bU+j_!2OKQ}-!R)XYBs{htCEnt&oXS==eD|*NzK$zeeSey)QfHn{
zos5`R3tlw;R2|$)=)|P3j{&)XWYF>2Vr!y8RaMn$=@(&%{yX4(aI)dGXd8DSz70ZI
zvOV7@)Jitf0be)@NXRfe?IhuMeefP!Rnr=`wV||j?mq8-bFl|`nxo}XL>QFM>^!Hm
z=hJuW`5r&ypFxcPaILc5sGjzncGpa#tFr#frk9jNc+fS0Rpyg9knWWbeD}`w6xz(m
z;ui$WVED+mJ%3_ic%#1Leep$UlpV3L;&h4RG8%gAitL)lxdTG-V&7maXua57>N6dD
zcnEsw>gzZ96SAhiPPhUHX&G8Tre!`{mSXsSNdw;(->D`S^6o9O)PcqzmLZ=4fwr5#
z4-=tG!pmlmY5<4$zm3*8yInU`g#;D=JD3#nhR!^@wkA<wy@(DvKY%V&d<7y)02%|p
zB2ykuvv32+$26XTJiBxB_xL*!R3L(kSZHRnpJb{C6*E6J`0W})#Gb0hezTjDzfEIl
zi7-T*2P{R)$h6x|bq}rXdI`Ramu)qowK?B?1xBi(gYD9BKaJ_|p+)rHqs^)ARD)Y1
zhwF?34lby=3K<GC@4Si{`U}~#JtP460_401?Cuv3QC92>2ndMebFufnlk%Tv;hl4K
z5QqSfW_4gaeEuEgNFnr8AHksUzF0#L7_cr>f=HfW9iypgCtySQrh|0Au#-OP!*HBB
zq1xic#xJlR2w4rWVEgst!|>=eSy@?tP>OEcV;1p17Oew?ckp2>0-S-Qk8UMc6fyqN
zl6@=Z5p2$NR7(-cW;#_NHyteTc2>|pMIKSg_+0yPX**YX+#&V%X%3>?e)S4LrgCew
zzkxT)@YQGX8BteTQmMGld!|i?hm)mUl(z+1bTl|nJ~H;^NC%V}7%vNdrE#byzsq3$
zFzPXVzYWR1G0}IjqFEFWb_JvjC*f0gIDw3e%*e<{`jCd28uUqsV4XUi>^}ig&<HFV
z@|<tgrvHx_#^=orhg(|DbZVubJ1M!5jX`ZiRcLZ@a^P}u1$wU_dRyq$`+9s+A+2^e
zHYrgiZoW<XPs$$Tx4i;uZvJT>$Ud#&czO|`<DvR%;-C)Cp6@$BQ7RLt1;yLpJGWFJ
zKQE4f@jWUsIPAMvk2kwhodPF+blGbq>ZRse&NT`?Lt791BhN{zII@+pYCX$U!z2v6
z7py={bEWoQ0vZ3;#WCkvWv0iV_Q2vkiRcGM-du>%!MtR7Wo2z?He?;m$BNqv{Qosk
z8CTknq}Tk}>B6epPcQ)*KN^sLl8$#(ZfgT@<Z+w(H^06K%gCVJXR(jv2RFZG=|C}4
z`|7g8)FO;kJThO|=+u7h(vddF|07%LRW+yCqM;QI+|EqwKejNVl&DCTp;pHKeof-k
z?!b+;THwysgyH0@O(x4C{kQ^HzQc?<iLQ%u>fG4PAG&>Do)ohz%5pd@?B;~tzh?mo
zg`^>VVE8vph<mHb2Sz|pVf{RTr-s6(#lI!vyJPOW=(i{RJ<M5uc-W=+92w@Z4S=Rz
zM`~qWMnWD}fB6VuQkH};t=1A~yy)Zo^^OZwXjwQ)pF5o~qGm=Qlmama{nMT-)R8Ja
zZ@UVCmSd0n&%RfX%{x5MX&XB_B!+d-$qRqHraiK5m$>J~9SGBB+;+VxCEXx2Pnl1~
z)#~%7X{OM<7(314zqELAtM1G{@1`5p``TKxZHJ4mQ%Nlu7T2}wY#$0yP;9(2bj|5G
zc>e{`E(z8FQAC5o02MU(JOT|AXbM5(N5JIUN}mVQCu-MNkDKY}bU1D#g2}fa)jc*A
zRcO$;#uJ8>95jCbw`QWs?aQeyr(aM&b7eIt40h?AM5sk9>L=+~QLM1|VPK35X9pOJ
zR`b;*$++zx3s92d{LMqukcWX!R9GQxXxjNbrR%kjJhKJL{^Tnox0DC20QVEQ)?j>1
zOg=uk5tXEmHO||NtZtqDWyGAn$1VmldPbVU0P)CYX$$3SmZeKbNHwK<%0;XvLnx6w
z>`Ca~oc&|gP5wW$!Y>czMimC9&$C#l0y+7B346VSz$P;*eKU*)LFO9AvT2fdxG0w6
zvBF%sS`jrczF&twJZYuC9)I>MpxkvS`JeRF69okf9*3xw?ds4)=L#h%&nVEme;rd?
z0u{-F`H?mi0Ah|rgfG)%Vhc4HQ30-lt;y)4Bd#<1%Zz^>0CPF5&COKf6+VzxOrRzv
zCcfe9T<A0^I5)3{%5EReIoH1mJTHlcXxdv15nLbI*O(`+BsNRG$f=k=OshQYhc8Sp
zjs=jtxRFsko{T}}wl7z@xWJ7q_XECwKxmkJp$*6{L`Rr(=Y%yi${K&Jnrrz`dJb)<
zmPLK7mprq-a1FE^kD$jUXIp@*Mf8yQcXsPXckgVi^N^4iH(aKZy{n7v0)panx*1c4
z^RIX$hy}hRklidY>4$-AH5QwN7usz?9}>Ubs&K{F?h#@7;o&j35y#ygh8nyC9_e0t
zjYe2b4!8>xaUprB{mZec?W3r?%MbH;(b3YsJaH(6y>TB44PfatXUd&P<Pha(X{jsv
z<ChSWNMy*3(dm?YQ7vgtzsnl(^});3?C8_edFzT-E_oB>EvLth3p-+4e9Nv=@h%nH
zF5Snj-Lw7A%>C-D+Xu)ob~Ld!Ct6harc++loVZ?|L#QD*fsQ;b6f6f24H9DXP59Tx
z0x7B-zVlF$??*(3HbyzIMzUoK)VLhz^`~CynjG(!WL$_t8t(Wt*nbTTe|r<od8J79
z(dJJMzfSo$u98ld`H*jZRK09GM0o)aiPyadGk1u8g?i3gbMvmC&WOAB?ujT{<9-^y
zv9sy>A!dY3M5Z)5m0lY=<8Z6+T_dCG?;Jkz^J$v;VV@$SZYIY+Z$6EObRwH27Y!zZ
zgve0V?}8s5$^$#zt1~jI+fp4LnVH-26B@O~FQnI7!)YcKNs$kZa1HXz`sP>Tijg8O
z4p2ai>D>(w*j={l<12y{TwR~b$n;D}>;Q>sYHbzRJ1(1YmRyr``?P+z^7|8zs2bZ-
z<ntgHdPjN7AZM4`ZxT6dcMPh`HOtd=J<+ay0F@i!fxnZ*@jm0XAKw4|D*Y0b)iixk
zV>R30!Jm?(Q|E3v6Dc6CvnF794%p=Uoff&LID>0qYj9|&kh(gN7bd~UFyUW+f2_j7
z!not=fo~^08q<JjtLEcy=2D7Q{QjACIs5X;S_$T2&_De%U7?HfPo5d;Utfgs@}Gb&
z)4#q5<;Fj$;D$&4d=bine|>w(|AQy#S*#&EaVl9@SlT)|SnM9mQ7M;O>4N(pW$y~t
z^8K}i#k27;%ViM#W_o8E!Cv={*)UV^q0&Zs_2ph8eAh>Py?3$Y^g}YT`1|%|Ug|l@
zb@@pc<cPNR_F0$-(+7bONbsC;4$t7(bj#@Er^n3_Z*)ye;ATobWu=I%DzilHNa5f0
z*rZ|R#|C)?5YY=zd0&#b2k&!vI{qxRobHAx3BL*=p>>NI4EMa7DX|^VJWqEpd0p1H
zh}|`%AZd?|ZP5(M7363b^XJ<a%5fNdB~tVj+JaFTjYNY^=F6bT{R^`&%G<$~N~R|}
ziyK~27pp3Xc}+7)H9RnO{}i6~Ivj@)<v2n?HaLu%#ENGNJz*G!BeN6Lp^%}<WA~W&
z8zVVH_`orNp5*U@PMC?C_+t_VOMd)F)vUJm5~p`>uBj}`5W>x4W=#pHrD&Z~{2ji7
zCj#I6&;T&j-x&)Q75`C*x^$0r4VS~ka|Mqn-%v>^1s}>O9EK{})>13oR5zY$Fp2`P
z7Ng=)Du_kDN9igsci-(vrYzZq!>HM)ylu7FVQ>SR2xNqtaBP?)s#sddh0**#fX{Na
zbN1kfD&0P0w&R++ouZr-$(4TRFt-(tfKb<;_~!j~B_%=pud|H;sUNe5bEel#)?POe
zOC`MiGyC07vxcY<3SmHBDt!A6W<59nqqT0t=e0yZk@6;MR!zj+3I2H7`ww4;wQ)g?
zaBnj1pU1^;Ps=6QYh@na{0;+w2;*rNL`9~ia<*#lcIkfHe7Wl}3(OS^Tx`zFyZ~n{
zPVEBZ%d@}ZmOZZ8Ym(<4S(kJ$>hushMS|J2PwI+Bo&K7YXK&QOB07tOCS*9S9-9~j
zPx<MCOMx0x1n`75v$@#?YHyqxKWL`)_4P*lj0Y(fb%P$^IXZQ54xpMJB#2?&e`1Py
zC7yEqThs1mcR^&rXE>R-<hU(MVtqFP=h6a5SGHzVpp!>+oS$5Er3DRjFMV%35K}pr
z%UCuS$<4%V7}3+$f1))tI-rZbbIqldMO9r5i5dYZK?Rm6BxS^ZmgdK1G~&!<U=ozh
z!;I0fsn9lWt0ai4d3lz#*wjtYFH+=n4J|4sN41mp2NZK#HE;aLwt0m~@I<e;^v>pl
zi0Q7DM3{9`-b;$4lGDu3b*{m_jW^NKCzH9UBzgH&cnu|}=)&oA3RYsdU=D=K{mc<w
z*3*$MU9sY6BwJwDJLRv3GeT`r8ObI--TS26_o4;8_T2mj_YAETCkO$B$>QF$dUkeg
zI*9E03n!JbWf_u|M?y*slti2szaTRrP3r9^^KPk2ufM}!Awv=BuAYVN%Q%VVzdA!q
zM*Bvo*s}Oc;v@}}AnTU99Oh;;I<BTnRdv=RkBhw9-rCf7o1C(g6)+J);;xmfR+*^%
zW$5X&OANuO%nY1-#A%tuV?HXX>4JOs;dI|TM;>fVR3|vZF7S$v#SPYlSA<(hZ*y!@
zO+My3n4bRPB3{<kQJv=y&G<PxkiJP$B&EY(^U!9b*qSiokga{N!1em`8n@%Rmt^w`
z@_tmItpzsc>WJEy5}a+Gpl3N}nMOv>V$Y)+>|d#sy9t0#vN63Y5Fte<+ZP~=P`7uB
z2iD8vGC+fnQmc4)-$Ax!?n|9D20rF5hNs3utCz)lM0U|-OAXV(h-B(%{g$@bGq*D)
zi4<-DZ_>uTj?eVV-Asj|G%t#**Xs+W5q~-pE6yt4@+10(EfO_f4W~VHIc%9$Wwv2K
zY-vxq^6$C)>N+@m(Am|lJLu3qTJFj`s-}hr%a{>lzZ|nYH>OSLR6@K_^|?pc(%P3l
z$Xl**XxJ~?S#C>>N&k+RsATiSG-Iotxqg<p!}L-BY9e&p4+DWuZzB6?rqq>b_g$ET
zwAnoWM*DG_Rp#;a*8=4X>-XGS7mL!+(%0_S=l7a~+2y92@8!j6sO@*DTF_`h<SgcW
zOV=OF^rT^@T6E|rj_uhod;vNSU6WL3@oB>)aOd^J{l8G{{&^X(#VxT(-8K4WUJntt
zIhi6&((VxA%j1j=C9GyCr&xS`T=vH5#HW&j<#;ZqH+iK-e{`l($(HA~+P%~1d4e+b
zcDdZ<&=KL8ii6aZfItvdt5Wz-f|2}mf-b-6f=GvkE>A~v`xNA@X#c;O&O4s!{(s{~
zZc1fD$i8J2W$$rBi6XmXL_#)M*`p9;m5~nFn`E!7GLkY6vWk#n9>=k_-|KUKAHP3)
zoSbt$@BO}B&+9rf8(rDwy#ET}B9G!>D1lVj^@pgpp~;L=)I7eqpOkO~AI@(uu&x#!
zHAS!pGc1)jn}dBHS*Z_yEzM9JQLK2J?f<)6lu+ULo1b?2BkiYUYY@@QTBdJtj#*sl
z>Z(n2Pd+}Zj1Q?Tip12Mhb4L={(LNf+huFeC3<;631XkBdlqI?->nf<yG)xY`!+_J
z*hI8_e?im?)yhaqXYl?8diXi-^}EUqmRpV!r>;fSED<e6L;@5%p8fpoL;7Uy=bcBH
zz1l-UsC`i@66rEU4dd;$BVqhW&8%v+PQ8L1+b#V;I|-Q2!OFZMzK8dWJeREcO21dY
zOpaU}3N?+gbGhQc7`nVXzu9Sk+WAR6_%?z{k>YdvKoa{)jP9*pvk@@YGVc}1a4=D=
zcHLU7RcAcKhE0U_T4wtpJQa5L{AE*Rg7lELw}WvFa}as)SeYNe<t;(3$2V9N^_qqy
zD~gz5Ofj54P{{*B_E8IVD83-QPKs~3k0d%2KW&P2yyq{)h8nJEc-I&p@MD{uFaJ6t
z3SRP=ZawNLP8MJ2!z7&467iX!j^{U~3R1T|!kJ>PuIcmN>w5p(sQ7COHa3GUPt<up
zaDqkt`Tl~fPnxq*9D5jz&>Q%c<S#T%q$^u>Cx}T+TX>-V5_otr5G*2Bq4`RZ>cMQp
zuLgFlg7R7ECTFR1L&~Z`Gn7cbbzQ*S0XdugI+m;TP1H8%dBHTfRt%l$I(><(R&nEv
z^Z)Ykg+WWK77V|BmFleXYvLIkEY7icpYG$P63d}IesM>--1j7-ma0y9C09Xb(*EfK
zX32o*3ox2bEldW(Fo4ClWrwE-Mxmwld;Wyep!kVCi`#F#ui!~O;XIsmJ&oj_<20N^
z+0_remtD$YxBS-dtXGPQN#=<}wOqf0b0{5E>Nnns*X7IxcUw7Yn`X(bf%}1Wt9kNU
zcehpV*Gc!-3|-rvuq?hu=C-$BQoW3p&cQ#J_!N+m&GM4F?JG(<&sMlw_K*YB<HT-K
z?}}+mmb&0RL8d}r?*MXi*42db^t-xHGMGKIz9LC7S?H{+8WxU!hWe>?<poQ-vs5l>
zEmL!8<xKw#o=|<5yahgg+G+ORoXabBuje&sHNM!5Hn4TloR6_*5<N1$op4q4>0@4X
z-k6yUA{YE$zeTbWut{*&)z!7#NNXSM4rZ=eIzhwc@@oFn9o@3h%4}f2Ql)QdY#2J3
zM37!fh}$=jGDtGM-<SVD6@}G}HH4;0^IZD8zv*vy+^W2`HV9kg!k`N=Kl2VVYKU|Z
zPE9Da@Q8k1%b<lc%8X!7D_JjtT&=j8s_k1QF+*%vw<~5OXVlg4lPc=*gGZ@}iK>tM
z-ft1?s_d2q{W159e%8ZcKc{I}bUXaS+Z0UaFo*k$Nyy`oY-KCY!acHw#`(g{hpUa6
zhSpNl{60<X32xTXWzN*lp4mAzTShj6_u};RW1?~dy4;)j#^|qZnTX&lt>fZ~F(%bl
z9aN*nJPLH`1vTj(Fzp7Y!aVKR#^=HSY}zCpt(szV;xXYm_=9#WuONPy3igdkLcNcX
zRe9NlMd_~x8e3y`U4B-Fe(O@>TMr;t^pkrg^tek(dIg;pm8;Lh_tfzq0k#g*6Gern
zO?Adn?@iaYE9ejFN=Ln9{0TT*x^|FJR9zjJ3^nhF(m=2t+N!CY_$6fjI>WJ==CS*6
znZSgD!<hy7?cVL)c+33T@7mz_vsNKHXTP-3nKhQ(znNw3&XHTkH{ClqtWf0#>rJie
z%Gq;a)OOqAp8iG5^!)Xt+CN8CjJLX8W{G>xJ-|=SwP?v3MDEud#4vG%k(NGOGR0d~
zCqzY6ceNJ1wfpH9)Y5g<!<0Sn!_heuwKIoFk$&s1mgnnlrq0(0kp&&=y(qZ0PJ*@?
z^1(&1bz<T=Mw({>|MB$aC^2$gVsrDkeY(b(Tf4&ax{*6x6aEF?rQCO>B;>d%?L*i8
z^3JC91YS|im~U&^J4G@xnpHU^@#M7y*I5@I2ioIS5xUCjcXy|DMwqR2I;hT#<Th>*
zR-3ox>isRey>;JtWkJZ9ed0W047W*C|Iv!!0Ck_nGWxynu>5NN@FeV{$bz4i`V}|y
zgT!WIgywBUa^BMuPdl9Lcl}3|dqUG59@UnN?0Y4Xub%eWc-DCMCBzNp!?AJMjs4o>
zL@CtM_E+`<f|vA5f??}P7?u2Y3vR;^0?rmJUV8`RLH2ir-v5@LmvjB_G~eb+NIxv$
zT33(7VUZEdze7h}W!tjH!JrN6P1LxDrPsW>Bc{H_ov;+%=#^^5(9I*Tj<&tr>0nZ}
z({Ha`MCCM8Xz%H1BIe96iou{*Dfi=?JnZ_4H7Q{Od(O%4b1&z0%HvBb-#)UnJ@|yO
zd9lIXe5z$IyMwb$JsWF0RN36iv`KOI@C0nm;e#CvIX^mkejb^^r^CFXahXS9w#9_?
z_-$85a5^{!2IMk?TkC0%4|pf4l(*8lFMF2wWcm;mf`cXpPV?lSaVaS|ja}8c35A2s
zqejLPH33{bsxPv7eq?FCxj5#$$UbCm$04+2qBDnnk>^sfawquD)8*d{&x#l`cP(aP
zpweJa@=n2iPdE4Z8HzHI52<p&7QUW3m0lG1#`CAe#1_TvAutGzQ?p{c6^|!0TwPr&
z8>4Fc>}^XfEcIEVngvsPryh(i7}Ybk-yU&W_mNM(l|)@qiZ$Srll$Z+9+@+#`4{#o
zwB1m6i^{9mx3LGhc>F~LDo)djsS<wkGLN|1@ocqjOT2LSY$-D#Qw}sKx>^x9&YL0|
z#m>@`uT#&?!+Lu`-mKY*<?B_`m&pc{SBgJeGAIyD*`v(XYgTO)eX$aOb|PvGI$>Eu
zF-)G$lUUv;qo^d>@_9adlykbT;m3M|JB}q^vR=e&5v?~Rj|%4axT@ktism%uU`K3R
zG&CGv-Q50BN!P`gc@Z`=YEP%%*|m+Nt;%@{BD*FE=~Q@M>dzXsAMY?%od~`l7FbZN
zv2C6<;MSISf1Kf>oS0s+xV-(2u*GkVv58>Lv2FHi@UrckI4ri%=G|~QI_p%F{_Uow
z@&&^sNyl1er|$61iqv{an6>>nQ}IvvwOo8pX0_+`{1^!MxA?t6LRxcL@$TWD%dZl|
z52RsCgug_qYd)0(2wT$b1KI3NzbjH7+v7Zr(NtF7;qrQS?si^4_hKxKFMaciC<?>c
z=dgtfrtGqGtkJvk_Hra9c&Cj-FsiB7g;gZa(RJ>7!|B9zciEQpyR6PwfnU?OZ@x9D
z*;l_!9w-g^PVh4Pcg^O6_DqfO=L$46#B482HlXWdWa6*jza>^M>f}BbgAIR_xWtTF
z{t=&JL*a{y*}q*P$x^cvo>%iYg3O-97*EJul^01AG*GH<2uH)gebws;{Yb@q!*QEA
z*U0wjQnsN3`(sZfy4Qzrx{ZQ<_%m5bF%I6uT}|4<q@nijV>j!cq{3#}h~9;=ypo5)
zurj|>i1WbLHU6&$vj6>AH|1$eh-y^Q4ffp#p#EJ2h_Y~2Pj9fd`b5S05kER;-@m75
z<g<JJMwiN~#6JN(<e~V;n#)5=H(wNn0CVu`9hCP0eMRYot&Qou!}M2L7$iMiK5fI$
zEoSNRS*m-ZD*33sk45unQ$7qR4@5Tv-_Iq}hT4fuBm>|Ty#SKu2z<UiT&00WLD00U
zuQgC-0##}LS6zk9xCHNLOshM9U<aV2rL{uh1%mp&e7R>vdJKdn7+^bx%>ujOzAfXm
z`Y)7?@<6&nX!Y}4PJUu8(>DO>v8~*i5Qh>ZkEkdXx#VJF+lVKSh*o&FX&mk=pnYJW
zCx^5_gpz_t$tUxDoDdaiQ8_~iWh}^#_+^7{w0$dNrU@YxAj0qg#r-2uC>hj7Q~p?K
z(;!IVeVvlh4M1@|<ezR4p@Lox3<|$~{%3HDcu0D7#vr>H1TZk?6ifBD`X(UsH#lnk
zr^JbXr7744qulUOBUM^dObp^CuD~nzp^OAyFNlOx&EG+20$Lk!G_1n&_5<()iK+QU
zRs2xN=Olb#OQD7%R17?jE^tq*Y-|Xa2X(6c%L4$FkyEpGL21();x3WW^UzQNJml-t
z)Q@^wP_t~<U#ZtG)PD&nF95ySuikm>;*yjTtDunfD@iXy8!`di0fQ<OGs)@oKFcN>
zPmSIQ+S&0Ur(_NZ4i4TTf+E0j@M(VCw8560cO6I$(MN5kz^ki%?HUTOINX-w44zD|
zt*GtqzROuw>DPc+0F3b&I*Edc3I_)4Oz5&PQAoyo1OVedCr`rKd<Te=vZ^X8khqXo
z5o1Asx**f39D)ZCkONH6&|3(4+m*CAFF3Kf`UJ|?8sPi_HXZ>l;)Tpo0Ym`4irTRb
z@-rYFYqZf<3Q{e<z|(`kB@9?da8G}Ss#~1}yc@-tGrpPD2ssHDpfb35&dSEXkfmam
zR|EO&9bi=S{5DQ@vf$u>#0!ZXkN&wvFTH{xJAHn7yQ(CpFCbwA+PNA`pq3j#G%1}K
zOw1IFd*_=EAFe>S5fU)UB84_8aDy}!$U=#npSSs6sxjZ?%P*nixeDRUq)B(QK>t9D
zJ<u;ZdwbYMUr(s7wgaI~ajNfw9MUpC?L(vm3V^-%OFAb40|TQu6nmg%{{<{TfT=?X
zV2VKK1;)2_`=OGIv$HeEJ4kv9RGNbx@3cVn3#hj6C9VSjf3z;|=IUxQ{E-a|7-Z>c
zZ!SW5ZVZGLU^7+DI6m@Ln_P#~A4_N;g#3r35L;hyaBOh%@Yr_XHf>9^Gn9QA8NccR
zmIom9Ws};{{xR{lVEbB9;Lg$K@BHzj6>3Z16~-1DOEo3SC2E{W_PZ)`@rIJf*H|uI
zwnCp;^?Ud4Ux4xo7L5kM9E-(1@$j#l@P{UZiC(+qEG8y~7<J&VD))5x4=8rvkz|Ia
z#)okQ<>c^yGmcA64nZ63IcmzvK)$?D|0f9wk>Il6k&(f`K&9e9Yd~rfq(%?&Qlh{I
zF%fv|AKWwWKmNS}Q2o6vd_-fT0?Ze4z`dc}rwIft_*y|<=17FiTSD@vf|;<XoP<yj
z5ZzVz*g4yZTC*A5$H&G*pDy1A|5p@v+wK<XXMjZp#_vFbw_AKn@yG%WmwWg+FdwKb
z6u6FFLYKp1*xK5<FJ#uo6I<(o)e{A6IRx$&p8px+c!t7;(5a@bJ_7<}Q0_2Mi#o>s
z6fE6Oo(Lnc#t;P)4C5Wz<uqcTgxPY6nwn2Uq(6Nffrck1k1-uX+a4l+8->ZOt*wFL
zvmca<%7IDXFkX$v^eXyYh2j^yLk>(2_vMi{%Aw+N)!ivlgwVFjAqDUJT>aqL5nu^s
z$3wtCAl=&L_a_O6&KP16yrh@gMd!hBq*_&7&3pMW1quRCKt*>CfZUo}5F_o5UUg(2
zFJ4ZA2lQO|MdG!15~oPl(+pKxbLb*gxu+U)M8Gr$fR=!@S`{n;AXb_K9YdZLHWcWf
zVyou6*Tm?25qMbLf*TpyKuZ4rnjAu@9>RbJ8T0zSvrf3wvs=EbqobpimX?2@z`jGA
zVS*e}SPDYGO$WAuru`K;0JcbKfzhYiw0QIgwYs{RuFKP1je#g+V1#w^-rvr-C?P>_
zJf26eJ`krDu#-#}1pp09l*8UDQ!bn4PEMKt^#S{h-FkFX0J9xQ69NY+w${ZWD>baC
zB!ZLBp4<i^6R0M@CV<iPBv8y>0nZpTr!d#$#k(v|G$v2CM*s`LjJE*B)Nc#(IBm8g
zF<UzDNS;y9q_3daVN~>**n53QYl3xrq{&}SMn*<<7V%jUr`u(GHu5LRc6WEda`6T5
zbr1GlxMG7Q>r<1ZeF@UUxnyON4)@cVtXEqF(t*c`3Si%>w*KZz{NyXmy$EJE*jf?=
zA5237!HTUP`-0}3w98<zF=Fcx0d*C;A3!|g016+wwR*3Z-ElTwx4>&I#S_VUm4Ogj
zz;cn;C_q9nAk<rcjTBZFwOh9`pgj<16EFr**cTA+1q`4C#x)-&$`WAB1-ch<liE*m
z_<aTsfsDuE`4p%t$jFSQufK-`5+E_f9mnEdzor3P>?TY~V8`>|E&cZKHQ+;q$Rf*)
z^}ZT~>k|>f51<#oxccW{cO62hZ;#v4DcihrSEQ1YlY=Eu1zxos%zv}x0z?vYxd-|~
zlDO@2z<1#Tu@f7N5MBa*S!IRZ`9lijpPhsCUa*w0r8C*hkJkwGrB!;OP^Z0+-w4Ra
z$k5XGc$^4dI4(7{2RhF1lY4<=w2T|>g1c1$;J?V$1PE;;i<IV^3{-f1HW%Ara8}Ly
z{fegc9~1lA==J+>{o)DE5Wz;m%q2A@CMEz*!DWQ3Dqz~p(l1bDDFOTK46Mw+o>oa+
zl$DVo{xo)0sA>eb9S}SfD5`<4F<vOG*^v?0&+u2TGQkNxRu?muaj&S(i+B;n4a5Xt
zz;pr5M+rDPZ4Ivd_woBB+sX%077lCz$g=9sDx@;KBNW3&MfCAX*`9gb#%cPv<bX10
zx|?U;<rHzzhlf@bBWhI&fIjl$0i0ecPf?MtUWp>nVw~(=JU*<-;Re^?rWh9%sAk{m
zTDf&ab^DXVf_7`d&(v8Py&QSPUa5(O-pwKd8@ypOy;$Cb;yW1}NM$bzb3jyO{Z$q^
zkrvSY{Hpl}d9PQKnhzc>Kc5{r&)=2gT~T|E!#>^uxM-i~o!HNk_~ZIgVg5J*#4LF!
z++b5^>sOGo-G@lCEjG2f+eyC#=^sDdIVt(2Mu|(m&?J`Q18Jg}6@Trj)3K6%zC*+8
zQD^|vUq<TO^7^;oCkz_UR8GUomqu$J<mI6!^Bqru1{BsflSQT;N8m1lTbO2=G;+lS
zdEIuPkx^nva`3I8u(`O*sG&Q%a0sQMAg(WM{C@em5QElfPCmJ0(D|4LO&{NsT}l+>
zb{HTa+Fhq^wAXM!N01I(srW;Z0jW^|5g9>KMc=LE44eMUT&n9A-tZe#FpL$-49p*n
zUix1D2`*s*!r?~Gl*XF5s5mUwR;kNCi~)K1TW8Po=dJF@<9w+ZhLUWbYizK5)=M3|
zh)|_R<Hw>mD)kp72ORE{&J0VC*C2P1e*XzBkrjT*=i}4&zl4hMMVB8YO5DG1M1<m&
z(4PdK&0Etnyi?1|4vRD)Z>ko5Mm%5%n6ep3L+;yH%~|5<{9uFPu|Y?M$SQnR&YZJp
zjP+V6Nqmt$rq4>zzIj2)cUytHhH|=h)4qURJ8b6%BWy{tCOZ^+ffCU-9p!Yt^+cc1
zIrrDnddBqkc>31Uqw2SAQ+yYiE$Pvl;*GDNEH~Bq=i0R3gKP7uyd9x5H>W@<Z*koB
za$Y_4tH{?)PUM;5aETS}Tg<{}Urf~*oXrox(`@QDjhI0&UN}o#SL=(&hmYPrK5^)$
zFO9k?>zU<IV|u>4g7jZm-3s*_RZ5QFv507CiqCbcbbl2_HfbOB5XPD6AJ+Ao#SJGw
zO_k>6jP}=;+vG8S8ozLXTs23qP#vlFCN&Rq_>*TisoO0SwD!@7b+SI9MI~a9J1%U{
z+xxs=p<y%L&r%w2UZ?Bm{>yG?e&kY|P~`K*bvt?j-}t+d2j1Y}<}W6P!(Bc^JPLeB
zQ<W^<F|8=6LKlP7xBsg9*zto1r2R3osE1w?#IjZUkqdCIyljL`rToG0hQ>2tT#6Rt
z()P|A+S}`Viq99T9D>bSc~Li1-)Dk#@BCFA-MlWSbnw@HGIul%=kk5J_}erk_o`v}
z3<|DyxNj?L%M&{+$QXgL>f^&|GN^<_?P43Mkz)E9&&nEE6B9P(9%1uuR!LfudUjRS
z<02gN{7adVQ3|+EQB^J%)+;DIy~iM9XgD%9`X(hoMPq}Bx%y|L7MFrVg1v#@xk06h
z1OM;A61_)7ja`xMFeZ_E;avEe4OWrZC4&;-!}SdK!qa~G|47&^H4k?uYY=3jpN{~h
zL)@$NnPOc$={qaGVv2Q?EHP9H{l4Ng<YQc)rm>d7o#G0t1h!el|10%!lyb(OwYq`7
zIGi2dXO2%a^wA)$XWhJmY8*eq)E7)0OzQC+YCGXe#-<>3U0Pa>O&bWz`d^9gFZngj
zHahvj;Wm(Qp~}MPuBJ%kG^qjFt>!ZI%pAdb-CVtUNc}pm-<fNT48_{~-J?f8m|Kp=
zdb^j1tVeDvAmj$|^My@KYMc~r)j_Qc*+XvcR7hQYVvQ0$;nM846l1B;YA1S7(4ih<
z-Wn4zy0@++zBED>CaOtx{HT%lKap~&fuke&CRCSa->Y=(x&9O8={UFg5kEEuVvCnt
zKF{wk|J#_;f>6*}_?$P;WPwZM5c|}7Op>mjG*H?t*C1u{Pc+1_JV8%$GrWDPzmcEm
z)&K$|-1Pq}ub6B5rkp%GwcI(=b+~s17jQ_1g8x*BCzAN1IUYO_>a$m)4HKpq1!zn6
zW2S(f!EsMjkwGoH8>TDrEGQIH%eZHb=JkBvhn+{sC-<J2$g`<H&(kXuf^3(iiP6gI
zo*l?zwclvqNG(!;Qeo3%dDy%8ieI;DHK76^UGJ@(?e)?xWj`4{hvsIkKEKDxIWIk=
zHw^j{T<ITd@;e)kL@$zfL_YQNAFHS?YabYA)FMcEHc4vbC>QACiYV(yv`=vf7-gT@
z9vIMIdqJa>koxvEoMP98UO;U<vJ3opZ6g=-!k{}5{aH@n3?pNrUzNp^Y2>00K9oRQ
zFKl+%O@qh1dk|)DIP6+d4p%{1&soue&TS2Vy<~e-RnqnOiEC@$4dlpsT@a5P|J_3Q
z^<7Bkyyag|VsID~6cl)Mzt9dSWpLKLAE{B5WTF*H$g20GrO}p~6wnhGEdTO?=H_s&
zqw%!!q}6nJ+8uc3AYAmmDWyL~)LRtr)lMzF2+Qc};U|RMztLQz;`j>-3-b9WL{ntI
zF(4^zla8<gXQGf(4mi5XA08NhY?@1@+AsxAXVF?78p*==D4uc<rmN01@Hl*d4jXCM
zn-sc0lld>)CmA#@L`77bf&5L;+sRP6y!0=amLi!Hl0XmqcX6ImFN|wK8!Fj<q3XsU
zXc80}8mcn}uB#g)%wRKuQ>-<%@5m&g&H<qr9ushsA23pJyAbdRnH^bGkjxf-B3t{?
z{iB%}uTS;sv->HP0!^oN`l>%Z=!_J4AqF>h1k4!x56t)swuhbd-jsiKc8OLon#+@)
zfW~?`d>`uOkXHPTV~xiwhN%_q@lgS1>j3p*ypf|T0>&of3SE3t>FfoGRO~GOJ78Iu
zccBK#5GeMx_6Osxc_-~B@W0c9z1fF5vJQCuK{I#^pcA)QjP=8%uUC?pzenxd*9+q{
zb+OiDx4@Q?MEW(;vC}^Ye-(KpKbu4i7MeH!aLfU_)kv0%3JLk=SD}wi@jbTpzZFUa
z?y;(?3+RPiGJOO?uFiL#H?imFPTLoMZqta4j*c+k@ZiULO!~sixPfn=`wk~-aBCom
zm947L2+UqyQLe%E){E@?Rim>)LP94<S+Gt1zHrhv9n1h;g;-t}c#OtiFtF7(w4G)Y
zbg1+dO>Mn6N}?T}2!<$1_)!{oDcm~tzqrHy2b*x8({iccgw-Z6vwTb{j5}z#5-TGC
Rzg&g7rJ{M`qw>S&{|7^oVNU=6

literal 27227
zcmb@u1yq&m_wTz9P&x&a4i#xsK%|j{Ac9DPfJk?zv>>UJNGQ?`(%l^b($doCqCx4r
zbN&A3jB&=e=lsXL<KDfuW8?B&Z#?fa>pMTwkQdKo2=S=#5C{a}Q(2@k0)bHnzd~@X
z!YAa@iPiAGs|L?xkcdn4zbOsb(Fg=1;we&6)$QxXFIUy;<8xPcOjj8jf^jrSu4C63
zgr${qQQ}vcafaNcrU_BfGd!N;5A8&f(@dmY_t;L0GN8gJNxP0gL4vg^yv^|LCk0Z%
zZgS!HYg>r0<DY(4SC)tej;4i35-bcP61liikcPqw4i4_2ZVL|%Mn>q%AdzWZ#VpLs
zLxvNiq*17Q8^OV{dpBH=$Xo6N!pzKMqJeazq#^YG?ct->E0*43USqcySA8y@EJj!G
zvO?MECQ=pS?nZZiSJyQqC8f|QQMUMq2x4Xy77E>~q-rF1!ljtL<|A1x9Uan9w<G;z
zZ;?sINgye3iYEWJ_tAiN(`9IA$j-$jFh4&(?b-3h^RI#!rlzJxCnxN+*O}7>o}{MV
zqqxn*McCNb_(CP$%~o7MfD(Ro+g%Jud&b0kV#U531rMXf`JV@C2z8||!rGc^B8Gov
zY8<akPEO|N)(Jd`pbrZqr1@>RzOoYFb$Y<W#)eBoL=-Rb=Kf<TsS>Nn`<$A^h|TFL
z9+x?dLY<ZmHy`kt58raym>_MsybvyY)quyv#kIFFNzNh@&bf2Pnt_2~<5wM3(W{1!
zKOZAinQ-y0NbKzGsdhIqh`2E#NE*-n_C{3xD%ST;$;!Heh&)wNQ=_P~`Ncl&vfLeY
zJoPy~9;eK7fD(Z-J3D)O?eu7O=?X&sci-p7Kfdt)t4J2KH)yOCSMB|#RfhL%#ZhJX
zP!UNHPNir_**Y*lOwRiJU3fT=NniZi29LwV?kE<`;@22^dwaazXKo^I{$fdNktPNO
zU2}4B+F37ZTHIM^vvYNo38UsOc3A0AToWG1Q_Fw-`n9h@g22K=iJ@k>8EJV%MTz&h
zJ8Y=#sRr%dua6w<j&}5|e$`U^%u{Q#Z8}$vWw=SIbexeBA3#PsNqB=-0>P-$==o@_
z7H$Uz@vh@N6}}%Mj&7|JDFP>mi0-3hTvQa(#PswZ;V<mZ=ibP;?63VKA08fFp6X8&
zemG}3Sz)Px;cK@uFIiK$y1M#!bE@KvkqnX|jH+mof|-|>#KOWNUf7izAwhzL<A*?W
z_w-yrybB1xKy1y_V3L!Q@2&lOR!B@pNJu~@q&g<^^rU~J$;Zdc-26M2<y1Kvf>BKD
zRVC-$yEu35+(G@StJ2X{P*5PC5g_>Y`v*sVmjp5cj3Pkx=~GD;7lHmH(bE<I+u3@I
zNRRELkdUWutv`JDAeOr=(%IR0JY{BPhCnztI2iTf<!7dd1qZi>>ucaxT3Q+z8O;x-
zO1)51<0=mO{P`v##o}jPwa=v(85!AM?4B^1hj5O?p8VTlVq$tI-8z>7q!$?}+XJE(
zY{(|>^PS&6XpWAKQuNyb!3<*0`D|uxxNglznwZ={q=2z^_xE=m&iO=)7wPq$2-?jf
zTs9_lpL$Vg#Bu9JCMJg6Gwfu1^hm36W_p@N*ma9jDH)0E`SzG$Qn$&QuD`z@yO8FA
z34xBTZi&yO_u2lq-bAS}{>H`z`t8TZ-#|Wj!pzEgtt*1z8scnkL~)|hn&x10I!Gn^
zdCTl9J&#^vdo-)!V70yBO#K^`Eu2C@xb!QoYsB>LGBa<ljpq7O@w{SWW`3-WPpTxX
zoZ7baGhc(jlhGmjd16X_{`>b-JO;3<(WeDNGhPo13%loeWXESdjD>h@Y#adB(QgkX
z#lgpKtFRnTDJ%?6_PMzE<jIrjH~;RyhBlg}%HCcqEiZ5X{J@mgpdIJkyLa;^`|B?>
zG`h;oN9IweU|4}qIeN^@#<xlT1|qz-=$_pIOMLhKeXr@9>&utaS1>X0tyRiQ6jX~|
z=^h9@ctEbNuP>{h5D*hX!O6vynx?#?HDBkt&HU)mO&1pzUIBq8+p`V!u=&A~kc9(j
z2Z@o9z9}h;6H`;IJw0+Z)Ai19Tyc4M-?*!$=8caZKfboK#E1RZ-r32_$w>f?<#yv8
zP3r5%=j2KOOS(*Lh2PxV+)@m?!gJIMs1XwEF$TYCo#Ta^*<k^rx7GbZ<v+}clg4Pz
zQk?LanE%_|Z9xsCD>b+~$AA93FqAGMD=UjYaOzaQX!!}QPKTgQna_RC>|J0Wvxtb!
zK@N|jqa&wwB?0C&B2_DUB$DDrTjBNn^>Jc7pL6~sQIEjxZdug&dfV*mh5z_La4_oM
z>xr2AA;>Gwp7mb2_MU_^%3vqb|Np<x@xMfx20Y>9UtK0dhX)6RgVR+OKk-Jg6?w`D
zNux^Vqv$AtC1sEX%%oV7FS^5TlexLOw{~=7%AXt_9(Jw$%olfmCl#tR21_#}Trcfm
zM0N8fE;wH4I7uXO#n%iSzU~tLAA{K4WC&m0ds&XKHJGQ0Eq~SW*Voryhd@OdgPBGs
z%)!AypGZPViXaVw0HQ?yzln()?ck$%eJ(t8s_i6)GD%2>SaXV_t0+6*<KovXR}j8s
zWn~8Mk9~uKanPQUPS^!m=dvl6srdXo5^2CP#UkwEbE(+4kM;@i4{cx75DGCq+@R#t
z^aaECPlR)LRxaa`c`sQPyzD)ni?d-ih~(Fwl<R9yqu(63kJiaaEf=T5odv0lnHqA~
zI8wc_T=omC*g6gF6fa-CM2!{DfI%;xxK%YoN0aw|edMoQWh1GfLG`Q7RR+Sz%G6x7
zJtlZ$zxVI)VOcfiYg_!U!ET@j+kFRN0x=Jv5*$rzg|RF-X@k@Y5`<rNw&~~n?bTH_
z&$a0~_x(JC1l)g;)#UC{7dE0bl!D`(nAZso!bm(XFV8P1C`gCl&1M{@7BhrQrNV~V
z+S;Ad?WW#}xpMPpgv8FlLBEFLZ0-5!Av#3hQ*nP<-~N^SxA0q&4|AHU+irK^JN2Sh
zVav-#X!jf&8(VF^bQS$1A>^!SwsVcVyu6W?+rNJYe)@DBeFP;X<$sPy6b@oj$x87)
zKe=7YJyEDD{DGPuZ)<A{1s*w<@C6ey8BL%ruCcK(lc1pH7T+?M)xy?RI4pjeM$s#W
zO%)Xt`|}g$(E@FaN-GFYcFxWn5E|uZUD(;#(IK-dobH}!|5vgm24?1a<eO%Fr3af;
zbHD3m$I@kp5jEo{vk$E%cxzHHeREZ^(;&E3dmcMXQph2Z1a%)vD=Yh}<l#j~Y$?s1
z&JsUCyiih-gv;#0TNviqA-59~hC3Vz)P0jMz%3#oGIw8+WM^+x<pwo%PwXlRg+M4P
zEB~#CfPG$fB_tRr58Gn)ciD7>CDqn!14mWgj~|2s$>K5z0@g;oaNk!Eg6?}cI@2hW
znH2;;y(ZWm2w!lS!`z>PW%&dpRvzT4=8}C8unvVKYiVu0^3Zm+eX`7yDN1&JZH?V>
zyxd$xQ&Y1U@;itfW<zP%i;IiJwsT^td8%+a0RaJcf|gh=?Z}uIZ18x9`hoCZlrBNt
zfYDUBxuEmfb(hVl+uB)$g-N!zvMMVD#tL=cr%DC2j*nA8)`sxq)~!u}l|S0;Vpuuh
z7ZB*In)AkYb#*<14@y@chfAx1kbD<48DCjh2|JGdWu?{UBClB?R@Q9Kb;wcd4>q*E
zio791$H+{%n89?Jh%46$31|gLAeZSVG3<)`@+Gu0j3ymoCpw1w{*iFa!^5NIK)cea
zrC7hs?%!{PjI6B3B<~b`{vnaf%%s=%5|o&unny;+xw*MRC(cbB7u#{2wrA;VY;3?s
z=cV<seXO@kG=6j{DSdnqlB2Ujxrv})W=<0k3440{KVBjIWK5^0OJ-`Zr6&@(_a^wD
zyO8g983!Re1?|nJ$c)!%qNR|K_q6>V)AF96f0Lw96Tt!-J=30$s%HqM5!U?`NCw};
z7XIJ+x)7H!Oh(r)$=%)E#D%ut=e~XWR(<Xv2;U6}Phmu0DJl-!U!NNoP%JJjB|~`b
zboKV;4~ktSxbY&jiszZ}`8im9+cRbyzZY5NCm3WQSV>7qcJ}s4?ORV<j?T%4OqYLH
z{=cgp{+AH&|D@RXZx7GTLS5;Rd-CM!<HwJ8&W;`Hz0Y3`t=uJqWbVezn=LIZ7?7cb
zat8(Hs0Oodkdc#@c%8azOjj{@d&fm3CKjMRe)>|7NO!Wg6{eK_1df*+S|K5giND*r
z^&{b-W{Cl|`ZpcikWjpr-jft6aRqO!MP=gSHQu`1)|HOS;VZrWAnI$pFY93&$#qna
zsMu+-#ZPufJ!$eaiu?)+3euk4VrCb}B(4MRX4vy7S5{WOeLiGl&~V2taGLeS_@Hmd
z8wxm|<Ot8#d&AC@g?hD!h&jr(mLbxSY=yS^H~&&HGc!@jA;F>Y=GSs?{CvS6(|s;4
zid`)NniO9lFYl4xaLSZtj!Mz0Bhsw9#CkFi?=L=XD*-Nj7uG{M?g>)WNbaVKxw-ib
zUOPtbQ)`MWZrw1p_ZlsO?eas$Az$+HsNIQZ0%AOfnD5`A{E_&Tgp4c=RT>-|id=1d
z&K|Rvu+V1zd*czO!(158DUqtvQ;N`-FfQ+ZB3NDz9G%uiZ$?E$g>r`kqtZWdZ$Lul
zFBL?j|9h%wVenf(T5oRT9zhuI_V(tW055XjRYT;*k7=ln!NGW$s`^#nJ<!RCIJeH*
zt6VQRYQN$s)P3as{cSF^JIBmZ+~r$ZFB3ESr{Q<M5+2&}I<N6Lt^H|LiCcMBlgXdO
zsTC$#=epDyfRBE`DF07)Hez}7!jIaq2$E0Ur#(w`<+Ge4<q~pgg`(*19dBm#s!z=S
z*#m#8=6KCouir>eQ+Il_mvryJp9P3|6J@3m=(>?TQu*C4NOYONAxE^dQRw1Pq*&~K
zG21uRfFyY?lsh0eM?#L&<@8`vrkAJgZ{V&&UyZBy(dj7@H}`XNDzKum)y6F<N_TPL
zZT46CnsnUb0JG5({G6N|hZH>0m}e_u8{nhgfBVKcn%A4X6=(Y8<y3KHZU7|dchRM-
zXOGuJM|(R0(Z`v`UQKp#BbuGEbo+g9jtJYKe%zNYc!<H#vEvNy`w#BVH#*$wbg~GW
zCHgruGK;rrtNbjz{r(}NAdcu}!Oj3fK83DaDqn^35g!FJdmNk>*AKyXxO$r0>aoNy
zQD=;~n8wWb<2zf}u$&rdp95uX8z4$E#$Nl0EL!%~e_d1Q<ai^LeSYJq>hMULtp`y{
zo(Y$%YL8cc@5Cd4=BVPk=%g#7oLzpR;X~M4;~y`J3yrf;%8*MwP)TY_Ae*W-qIaLt
zUf9n^&JfoIBps-uuOj~E2NvS%-fS5BzS{GzS)=v8G3>98n6zEahq3p{t6E#E6JU+6
znh-JgUW9G%W(2UP4}1+Be_Hf+p9SYi|Hfe}&)i;D%5Ud;DNpI-X$CP_8!jZDKNmQ#
z(tLlj?F0kiQmD(8Uy|KG;Y+Mn)+?{rCGPXB^N7CxsP-+P&X=DZmtnN;Xf98BDmb40
zfQ(F8KYT-O+F!V8zQh6-3>yP+bJbkXwfWjWI!lRF*DEbyNs{7LXJ&3X;ag2!b|myz
z1HLse&LIcMi7^3>(t{ZHI@KmizxBz_5LJIjkq|%QwZ*M%I&A-(HYSg}C6FdwN+axn
z5&lj(^<xtK8lTk%7JVf_GRlAu{8%sLCaQ2+iEMBG;?>cn3D<Qd^|LYt6UtbeM(W_5
z;ul(VBOZtI!zEIK5BOT!v3uw3FYr8VW`hz2?m5v3Vp*)M-4M~oQ{R}nhBz|m87QU3
zuY2xllr8+&Rwv+d!0q1`D;PzVt_$$3z~^6xWN%HBJBg9$HQrT1KR3%sF$YK3ba_|%
z@iTp;f~$Px<u8h!I__QCTtReWcTHl7A$;}Ji)0QZ=bA^;*vreEU;mjvfXU)^{pNaB
ze(9q~`+d{($5p{cu72T#^zvMJ2B?fxl+bG&*q$VATdE-zcm6Ba;x`*&pDSe_`-y?D
zRi2x*q})GZa@r>x%-N^Pti3cPRZKB8!#WLA_*>w(Hi(NL`L`D`^Y_12k3wuiRn=j8
zE?O@0c+A)&!^cjTP@%xHcXk&4=*<>C$5unoN~#GnvvkgmzUgZNJVfyO(7viIm*y44
zt+}2~O1AG$t2ZxgQ#b!^opP)ZZmZ@0lyES(vUTlOPt{i5_9KL^^geY5M{KZc2D|5k
zTD}?$!p?5`&P>f>MBkoMyR?kKzrUB?e>uER);pj>AT$?*NMXCR^iJH!$Zlw9i)8$k
zAdK0ffr&u4Ukya~Mq0jgJ7?cbKd;;zBS#c_PGRZ%6AgOER<wIx;Ht-1Q44O7E_i>5
z_u;x?HQtau=Im6_tCkc7jwRN$ZSUFlQQvz}siUSwNO!u|RpXy5aI49&NwV5|^$K^g
zNT{=;>9Y2vbk!?_1FHo8y&}J9jJSIl#$J;r#9`eV$3O1sh&dCu+P-Q#vuF8RzyQ1M
zgZvM%To-2MlAIkG7X+{IF1yo~_zm~KCxe5d@4V8pG&f4F5&e)8Q2wh+MnTc1^N-5=
zYz}YYq16>GYdREaE!D;UNqoK8?X}B?W=Lr@iZbuHV0VSY6t#Cjukv&A4NFex2@?6}
z)cGwX6?EyQVw{Fjq%Aoo${);$LT*6u8Tn!`+T%7Eu864U!s4Q`nJ^Cz4*@k_@IavI
zmENrIpnxO+sK3OfDs!NqQ)1isjn?h{hX`3T6Qn!q_4+Go!5KN$Li8Ux2&wqsL7kkP
zF_y*3<9n+19_9{?jHrMDi9G&vT3l9Kj6l?Xc#}0RhcYBvG*HTvqd>c;Pl`3fb+yjx
zk9BqFh^73|ew|r#laQG~{PFq8zW8iBI4q7s{p{S_5cPtWOP!hjz}4f~PhaZEW<CM|
zM%{_+zb=63>wVt%q<J!0b}9O}x8UEk!!))0G2Vv{HU4wNUFnIi8~3jGsfHSQxPU)r
zZ!XJTz!7xCTk48XK_7vw99sO~{{7Yu$v%O90xM+Qc6EkU20a9L5{ZR{g$d|IG|@qX
zLYA$S2mv}C204r2hGv=0Q0Aa;;c-%148Cc}#ejHfmij_6$8+QggvUfs{Kmf7w|(|{
zCFs$t4LOW&HA?ndq9~nz5Wzz8b!PT)h>nO9y(aJYM~-*K&V?`~-+G5~XFq=SOra%>
z;Yr(64_ShMjjGclBr-rbuNc!;`aNZ;>-MasfHCdkLTq*j&8y(RId43?V*a$qZh1$4
zQpE;zWsXdIVG0V0jhPb6#Kw)_N9ln(pMIO7E!&%Vl;%6nqTTO4b4_h+j@nzyX%Wh`
z#h3_dYwII7kEQHnof4BVr*G%t8ug(*si;yU7b`1`j7!bZpBAsz)=JnKMLKW&{r%H=
znVH$iG6{qkT?O9Veir*06d0Vk#Rz-dY5nb3!us9%Pq@l#=!N-IRHwflDjk2+hV@n4
zhbV?aL*2<7iImRTGwf)(II(ovoTA`R|JEED!?94K&-K!2!!JwENut0#oVUOLV^gj^
zOI7vr&6~2%<(o&Y9YRKT?NX&{hjS6veSa-%M25I+Y)pOVHW?{J!f+5>q=$Cv+3~-7
z#y!`q<{Ifv54XF%XpMmER)8A*Pfi(FOVFI7l>VaVm8f)_6jIe74W~{7)T{XW#&}us
zpZz|3AV8}$+}uP(dQEVna#AWP<nZTqc6PocB_;pKd??cJ>Rin&EYj?kAd3YVrUxUF
zF6A*2sjB+_SggP9u2PebKvUoFNSav5{F$O+7s%G{*T;)kL_}yor1n!~S98)*#mLRc
zX&xLTfjZ7?I0JX8(i)$Ot6<<&P;0AAvoA*I6n_jR=2e1u9XI27C{Z=5Z0HWQrh^{l
z=H^)G<Gx?xPsz7Mgy1PI5B_15&BXDb4mb}ApMN9I=ftk|_|p5F_sw4;KFhI<vY$+#
z=^R;ku%zAJ-I#pPceFxvR%S_Mwf-pWpD&Z$+ThJBHO}k0)KPulU3DJ$P-lC&Ea{u^
z1`^Q(QuM~9gIr?VU}+mj7xnQJ1niv=MRBRQcC2)t3yK0ER~4tHNQM=k6RgTYo#5po
zx3hz3xepBDjhwE~^-xxS^ypE%fHn2S(GoGi7hY`cCGU5ESy`~f*h~995V)N;5GB!!
z84PDUwR3dz&&#vW+6dK`$@p;p!Gocy?Qub$1(7T+ZGQpXCS|zJZI|O^rRpDFLy7w7
z?B<)jK?nYHz+L~Q<BKdVh%-b~Ji4tPt!D{@l-;dsy#sDf*W2$7-~K@Nuu%S>1@7kl
zvpDXK13KaPlWCz*n?YGH+nCTPLh6M$ejoim{fU~DR$94-10(TBxn<Bb?Hn9hUCVx_
zAMOl6!kaTnH&sHB5ZB)Y`+N}e&f&G#@r~e50gO0i<AtJRBf}+Df5iUNWkIUmF^RZ=
zLr2j(u<c-e?$ZwiTaUqbq3+JV!?x;2?{7HWvY7kvC4xhv=rw$rImQ|RCqjx|yQVp2
z-#(fNIV7IaXYB`;LP@`fC1vgG%$>Segqe*=Zrlj2OHD-`|B!_gcTdZc-|E(5smFFJ
zJu%9wMHBjeR#vb>kj$sY@vhU9du^LFURpLhlrrJ8Zv&k9CxrN3fHO=ENHoM$Eh+6>
zXbXCl*+eFeGc__&raEo!VWUSm{XQT$nSu686}r2W9FwkM2}yRGoL)zx37k7X(*Nq)
zxRYQphWB}DLyql-C}E3lY0s2!BuPjdxJbr%5@oDZZ+#>uPbpBrjo~U7EH<X$v%S2n
zDtCNOg~uSR#G>>1<huDYjkcM*m$_R~AC&c)I$If@e1F9=y`Zw#NK|dxK17$W%PDlC
z()(8(1(mldA1*E~FYi4yr<-^WDtw4V@ETO+Yo(^EQq&txG#3{_<W5d9D+fN5^I_=`
zMm9WGe8y4H*ulvv{A|nd^!iEXo#2QFo|r}`Y2_FnuwX*s7RoK9ulzB3M>=9QXRiKs
zUqRl2^DxKPy{Q0U4F^SgQM?BKHsLCR9by#<9k!S|&V+<UCPts+^uYYt563n{uZm(y
z)fg8DJGc2}IYT0kfoSjQU{B*yChH&)rlO*%uCD$h&4ujvczBr_7Z>Np!FE|%R?2I-
zM^a-9m(R(_j-amC9NNkkEB>a>qD|#~j#pWvg@J(Vq`kgLWI3EOnryMeYRzr3;`HgI
zHc|eU3Iu{_{EEFv)5FCjgV#3ZVf0c@Qc5!`W}Ls4lu<Qj6-q^|`-r0u^Zh>&T7wu8
zBQA7^<^B(%wi|Ynq%B8!RH;v_JrK>AhCy~thb{<-F0u0=V~H(OGAas;Dy<O=1juXg
zmxl+B*KtK$@lJm|?0I!afA4C6uq)57$D5lp{{Mmw7I%M<)IWE}hKGl&>1vP(*AOI;
zFI0NZD|80=+rECKrJY<2hh&GBS3t6k-fM8?xYzSkR^fTz_7EmcoikkskKSWlDa@Z%
zn}ZkmjXCCeiiOsar%Fm{9jTkzq{k?+4}E<@X;Q4^8=riV+UN7%3VKLf)Ct@xQqCAy
za9oO_W8)(F$S#ztdeX9fH%^hhBWd6A-o<zTO3Y0V(L7edlr&4+ww|GZaPX;V60U0v
zXgf8|CMmG8GM4;PW-cnC&K0$OxhJLwMMB8Tg^C_4)v4&M+wF#{pX?*$GG#qUgW`j;
z5x#3K&VxRESmkG>90-ZDG{3JKR+AStXC4dI6LjL7+J$*pckt_I;&^&ur-k@@17pXo
ztsfn>lb#)n+%hsX#Y8kFij{Rsx{9MHO(JODL7sFx_Qv*%931St{Q|r1**HOwUafBd
z2UV}N$Hk!79<2c0l8^3PZI_kSo8OY|VME&NaIObFSS(>I{nAzZ^{8T*aqryRz@~5S
zM5zIja`c?HO!nbc%iz<IdrrenHSSdfuh^?1>bGk}3?@j`5Nm5|nzg^Q4_=aBW!zz1
zn(8PMTy3Cv^l0+Pa-qm<tdXUUlQT6nH{|*GRsE*ZIfU<n(}v~Nt&O);Ui(KpjN7yI
zcMf}tK-)kG+1)TmPcrBYt!n!4jGf~_S#xuLpKK5ai8H00)>BI^&Bh3c7by%UVf|n<
z|N0Lg0hUrXxiiYoN3y3kJ!3uXRUGJe?a<)I#%kp6WeG^Gp@s>E3sW46Zn$1*Q>t$^
zuK5!+oG`Hp<CjE{R<F8}GL4IQV(yPoyyu-iWq2{tNY9-t1SfHjc|<?C5`Mz<GF2gt
z9)}pe<0C_pjEg!YB1LN3`zXzW2aM35YbpkvO3eOP*Ei9Bo7DD%qB^;W>PN?TdS~lc
zs+cEh#LNH50uXKgZMMGj!9cw7DUwPiolE`LD7H0QAGm2_YkJ3Qs03f=&{0yy>H3TY
zH}~H^yN{r2&yE09YE5{hNwG-nk4?4f>7Aq*VkxM9uM8wU8PI3JK!^qsbYVn<0SWMs
z`<Qum1^>q9FALur>fAgZVj)seGXp@)!9vhZH|V;QTfgkM;y6~<`~3UUTkI3{RxPXz
z*DwvqIe%@1K}Fk+6lsalr4RPpL);@(M0<n2Q%jmJ727zB4~zeX^GX%!qAPD^`kAhE
zjSzHAQJZx~IXc>Y`#?dE&++k#lw>P$g{ev&yGzyvmxUc}VjN{Qs55yTf9TmcY^i=b
zj6CR9()xFx*OTbCA#B0<s-x*_zOo@OB9^e(93DTdjbUMSGXde7UMDh`^^Ew)>Lm|;
zEl5Uf&K=vOn?L#aicKmx5Y3Kl+ea3t?kfy^gNEHWo)1<`5xy1H)*semX)Y$Uw1V+`
z-U$)X^m>iQ<iA|F9JBuT>m)TVE3}F7;^nu2701`GWl47JORC*A7+c#O@3LRq1|fh6
z=Sq^ehX?V<Kh)jHWUjoQ5^d_%_PyI=4i2UE7lW_%Xhi8v51JaDOcly7Oxj(_q}nFy
zPox;rfcIk{id+O&>c(0;-B$Bw{Kj0mC=}klj5s@!^{*&h1f1z!n;C>^?D9m#e(?)x
zaV2qC7eX{QDyg7Qt1R<<xLDY)0t*|(K9V^ERau&^r`Rl+U~gRxh8L6yTuztb?|<Rr
zIq)zW&Ju<E7ZdUA%e|XEJSP-tmZR@LqNDvHm}*^>#4vMk&e9*qHQm$7y<PdC{tyTK
z7VkM8Atu+$N3TyNlj}7~SS_n)s^&-8if>;nPAxgx<o+Ild%3y2>8d-I8#5ysPN-dZ
zKJW43Rv?`cw%wAR9_JUntDjd_11fv_BK78Av1k6)VIc&|2JpQa&xxprw&MyeExK_g
zlON2kYG;2e)Dhoq;wFsQ+gB>eC5IvwDs=a=7nRRJxm3!pthQT5_|B+&ej_=UBE9a~
z+D{y_H#?i4(IlN8F}oO*ba3_1-zMhnhC3lc*r(-NUw39g-cb!ief;|FRI<tr+*?20
zPD^+NM@i?OyC6XPo>o6?7})tW{wCS$$;q?_hF&{zNxCn{w$uB3je--eT4uI+0(oGn
z#(zw+kB#GS+FOvWoa!7)MIfAp_j-CQvoxiw&^YL=A!|!}J)Wwn>Q2{;9?AK#{oCmZ
z)Wprsm>*F)B1ELb+lGh9mPXlAR&><Oh2BzH+7IyY+oh!u2!qR0+ay%>g7I#pk&F={
zC3k<;xvp~4Sl_kxl8inO3!__ftq;H2qsq2BKzm7mLF~#V1dj0SNel!SA4bM7Eo`br
z&3(CBWRnsRP|CGG5s_YA3Yuuzw*@g`QSA($cDf9cCF}g7?R0$hLb0RgsnuwFFl(uJ
zf_e!8p;}q~(MudcrcBY}J4Y3zxoY30=8RviY`UJ?&|x=l^9ZhEC}BtL&8@N`&>1(#
z3^Hx8){Id(jNC$h{ik#D@=_Cec_%Fgnr2^NuH7@L)|vjjt<zL{ye%zK?MNfBMYs#D
zio<^MB3p63&zq-4DcFy3es5OP0aKm2;`p&movS~`-TC|A1X6P|!yu_m|6*-@<3<7_
z#{(6YWjure-p#MWjuWyUj#oA-atb&oTTDkz3>xB8#Omx<kMtqQX`UITCe*Hw24A)?
z*!Oho&O*n(D^<U?OO#yL@2~Aj=?GmMV0`~E{U^!&3_R{+sjvoSN_u|K$@2muahGty
z$fLza^jLF&;f1eCEPOO(FA(!tbGK(2-VjP`F*0w5`FyILD^=ZK5f-C~?!mXU-Hv$3
zjF4Cw+q84vrUx73qOn_=!zam5zSZc7@!)-4ss0)Es*v4X&=>K|pA%u_UPrumsz|))
zaS&s9_;b+KzQ^NXTC&I!aD?9U!`FUptTBplQ>x{UbJ}kzGR(I1!}hf4Cy0Nk8W0u2
zmehr0S$OmHTNvnbf#*ljGcKJbF-pG*iIT*sSx>#xigKejUK)61tE1z&mWRswyyDUl
zuJYI-nJ_7nCs$q0T#3`V@@_}UInLkT>SAt)E7pE!*JJu{baeE!fei*rS&yuo8{6UW
z!_#f=mc!iKTtn3$O5Uoxz~G?6$e7Q#h{1>VJDV>L<{T&PVkHTO&F5o)VnwQQ;_MHe
zgMD?C32q*jCrRo{wErFJX{ytlJzYIQy0_7@btL4w*N4B-_MMp^^2Q7O-~F-2esztL
z*v&{r72`vqD1&v~{yQY|TSgoRjM5MkFRI?Kevs#&sx5$KhoCcxv+A2+GRE<98VmFF
z*Cj!$)Rk742xu`sanrm@U2YbJ>$nn>-qd8RKjpOgwvbyYRX3LmRB95J(?CuXG!q74
z+f*OZ29#)B91a~dyuC;GvYdNoKw@h?D(wcJ_x-DiZXV<ZE>$ZNW!?%=m7DO+guFJd
za3#tGzYj-F6s(t~JgCSCW%$i?JkJ<o?|2a;@T>9hQNs(Z!Jl~=481N#-LrMIfmbQ5
ze}&oJxx`xP`HgUhxU&7LF(j_!-e93BE}i?K6m(ufRkwr8G=@7qTE8mAkb3l}X3iP?
z!pv8;875!e0~3oPi<G@})M4#EW1jaBasde|BP=H;XML?Q%3EZ(^Z{3w6nZQXH7)9c
zN}8TJoJkFizY1z~=}<H`eeA@cLLp_Kdf%f~@LFe*7M)`bvn?5I8^_IUKCa@CosB|4
zeGKdq$Ofu~7HX*aKuBu433c97ZH+D)i4fsO6_n+uOSx>~chhayi=$#UDs;~S2ZzU^
z8i?wgbt#3Qm*-3^@U}Ma$<XY3M#kL^$9mB3RU=z7N*_U5wlakj^$y+@{c2ovDdI`_
zb90T6jfwtVl%oD?qqCv(oIe9;k>CZ_sHu7H6<xtJ9Pv!n(BD>p{SvuuyM3OoG))fz
zqr-I5r7lo=OIu<2rTf^w{wk}+g)?;iH7A#2u|<0!=`>rTuRKN;KON6dE_Z&bh3?(R
zd2lMCZ=*)IpZM~-_Zu1UHy<`_dX25AD^AiTB(E*ca+v8%>bSHkUw@Ki!h4^e!%p|M
z*ZE@~QcDYSs@mB`r4i=wU9k|P^2XuEF7Wd<?MC|S8WoRM^3($=**3iLa`L?SzM-Gc
z@1=smX7rW9Z@e49IioW*WWM}mx=K&=7%0d1BOxG9bmJ^9FN?kG9c;f&{(B{9c&6GY
zY2)`EaY^pFZ%LW>rpexbr2Mw@Hz?>-EozBq{W9LgRbLbpS>=dFdW2;|@Vz1C9Jp~Z
zyi~`ODX{%HEo8MJm;$gAIfaI-=kZPUGEr0BJp^Mb3R?A495mXrxbIKgq}a*AJ8uD@
z$>B0lQ(bL$%Y+o@AwWHDT8<ZT9aI9hc=RXPhZis(w4w!MPdhM)cF_Emy{sF^<wT=0
zaB!8)uM@W=2VX}HG9{&5K9ieI6%~Vuig;-0#Knd;bphW(!Xb7beR{5|7wUw7$i;Lk
zV+ViXHU+RWdU|^GfOg2A@K~S8P?1tlv=x4}2Lb}nA$=R0a5Q@%=|5w-AnLw{!>X9X
zIg(xo<#?)AnTgqGj?(8%|6p0t8!jt-3vD$6b#-<NS2i{`SH=_o7Ug+Wf49s_TU)zr
zYO1#Hg!T3AVu#!D-`jx%H?Ke^Kf+c5nVF^&perv=P-!*kH$VUS7AtG|lQ3%3a3=oA
z-YQGox;TJZz!FMMS6c6)8OEZfi`L_Rf1;wJ{VT1f4Hnx&27mq#??4(DFauYK=i}o8
zr)V1<CWAJt%s`SY!;gP9bNG~;%|HOy|6P6xoL-7rzB(HD+}q#(x9_#mLt!;re^W78
z3{8SHUS4>p=KkHKvBPJ^xq?0dTbKSpnV)T>sOuK3r>7?gJw1`LvopwB1WTP^{x!$b
z3F;4RW`cb#j;}%E@(GY;0`ObV2-5*riRab70z!C+e%n<*IPc62=_;L2VPODg*9BA(
z2^}4wsHo^@z6SA}*CAb=`VVpAr_$GHXx@uo9AR3HeUq%P__+h1i9vTHQ;v33VcIhm
zvI+-s7ieCajbssijE-K3wVf!&K!01ndI}2x1?A5Een3(ZJ&50d0N8X-(LZv)qNk^?
zc3LHqSD1S)gxcPYm~HS_T6uP?<tr*8g5FzJlcmyywq9Oddz;f#GU4@JvKxR<6ay*<
zB8=2hqRf?=y1J#h?Z#*t!BXpK0Zy&b3}o_u03?7UKzFl6E1jd__p4%6**ic9Er!;6
z%}Nk4L+5tWWjN4%sZXQtAbjDu+W-Lp1TtRSN9_Ln`v?S3atORe6OFGIT_0{@y1E{E
z@^fpIVx^|07MGN;{my23PEAeS-PZ>|Di#1IfdTkbtz%=9ZGnVsfU_#)tAEda#gyh3
zlTbWeZO;NL0-PK%0fQJVzyNN4mvNsbi-l!mWO!~WCW+v}Vsq*>(!w=^KYVEKiQyon
zqznX5S-&fM#={H!<tkgf_O33&qn!m{gsuVkxq}*F`KDV(2`p7doSt_GP%J$sV)lzz
zAHu>)3_9=x1qB&}gs1@}0@~!^JV;fxjmK9J0F=GOCBFlV-{Q1wlQd|rAQuw?wbu9f
zK{hhEZK}d@2sov)vws6ebC(xElw2=UK=?(!)mo?3E7sP>*HDF;C0C}aY=gqW2=B<p
z`@$Oq!Wt8Z%GNA}1YRf93(%AwORsD;PuDp9N%J_|0#@T~W~Om!Huw7}A20|&iC&wT
z1%sis3=NS2TZ=<P)Cu1O*ffF6i{2m(=pDwxFB>0kKSN_|d{z@AV0^9fE&eOvUqf=1
zdlV*C=vp==N-#S+ZIcro0&{vr=9*llGEl)+;b~*JXn0>Ez}k(om!L%hTZTx)=YsZG
zEN2Vs_T>|}A4veu78Vwms9b>Jt#;dGwgA7TZDMKpKAcV%7-mIEm&>z%#IO~3t*7|D
zy=r(l<}#QfdE=48EiiBOje%4kiO^UmynDOlZc;2Pta(^M%^HW>^78WYfPyWwIsPFf
z$HD*%<4Fv=n%(9U|BagsUJ{l-)xI_|dS~1l%f!ftD9~>5YV}AK^9tn?eQtl^>g4o}
z5$A@Oryz7)n8vr@)v}Ff-)RTNSZfCx8@uJ_PYOU3gMg$1ca%B57W_%C=JSBfOtt+)
zqn9u^&;U>|(_!!A=rxIzmzTpr#}|3Q@-6!jA><VlhU#2xtHEfte$|=H);|LJ6axXc
zESj=1b_V+G)KOD2UPm03CmLS}VK&8gm|C>EYis(12(QPBb{I8uY>G)Q>h2T*jUfU;
z!iBXpJPi#EphAj^d1(dh5NJIafNy<M(;!$Hc-6GvY<&SdzDh(JzwNa`Xo8E6AB|r}
z%JSrTZusJXIB4=<=Gb6O(BFFEf0gh>!ApKK3yWBk<IxRUTif{f`0FR5r+>5Hc^Rys
z?GBVP0`d0kTO6EjFM^-DqQZmK3c{#0noq_d$TU@(@C|sCVc_QsK}QyJ{7rx+_W*!&
zS{=p)GEu6*eSdk1>bft&NG1S?6ol`mPcxsr{yi>Y+`hc;eb{|pan`xEUhnbtR(i@y
zytVXOkS48-6}*RS-a0d*<D&Zw-dyS7!D0vgS5c1xf3JEUyrG`Fo$Qo9Y&Mq=9;GiY
z&e1e8+M*>TB>~v&Y!4xag?f1>wcL4K-RR=skI?(T0Hf(mv8m_M(%6s&!G91=T41jZ
z=FTx*rBlKM*MW&(VPTQ~!iO7uN8w7OuuvI91Jq2-19$;g0Q_rBLu4{CG3g<s#PGEo
zcgPN^D(_2lVBU5g1+89OaB<VnUqbAb?Yjjqioe*hujn$_Y~PuJ$MT&yyc;DuSpUWm
z?()ok8sho)25t+~r;JP3*QtPkBOEUEi@|Wv#3H;Kh)WJp2imk=CwpxBV!gva(~DO_
z<t(9~KnPzp8~b)Mkcci6&C>Pt5s-ysbUS8}DtWK`o{Wbj>43<%5(`5G5_)<J14*K7
z{?~|?$2vMX^m{(Bm68VdF*XA#2n1e^T7Ik*QX5PJfdCTaT}1`|*Th6)aqH<yX-`j)
zv^2Sc;-3KNArRgd$EGzWetv#(A`-?BlHpB%m?6Ct=^<wi_&tKr!xpG|v$;l5Fpan9
zsOP*s=CEA^1|s<8?=5x>ZqGYw#B9$m54V1`fx}(d!c<jLlZLp4K)`+6&P!!ROSuoT
z6BFr729m;LBIua_`B%x3Kb|kRgH#n+`Q5z*QxRxN8aVJ5`RZKIdYOj+CMzfBmz!(e
zsJ{+Z45+IUKG>MVgq|uIWryJq#B$&{Fh}$N26m1WXzK%-O+!NypOC<E4-}Ck5lMG<
zA@AcADrimTOz<DVNC!-|_%$_&)6&wu$bL=-$>99O`Kj4p3PxIb`uksh;3Nybe_sXK
zOjAoM6%bF*_q$+y8F8+F@7rC95bv2P(yk(cCF}qw72T_9>Fm4;=p{M~0Y8aApyv&C
zhb)y&73Jm8c^t3fZ+SRb3uG(MYp8aGS~LZEvA3t1ZWx=IN<r^hOG^vFVAL<m!wXVD
z(wHO%N27<%YpOtE;j*!@RXeX!7V6aaWn|nE6c%1u{vMs9n)^}b6oN||aExe=>%Px!
zU}&iSUo##n9)dgI{?XtX(4F(Z@a`NQ$^g5bq0FYEqr>aAGf(#OTV7shTM+S5eo^CN
zb#+QVe}DVKEnV~#A-&;NN(LMfHC4d@UqM?3<XbaMJ`7-0i9*h;=x(Es^IG?mu#gaX
zasx6(2@4B$o4LlY=4OfZj*gc8exlwuo&ndqD#6gHriKPlbkqC6g9i}ao9E^jV3+vk
z=Cb|nPsG>I7$+NN6o8Ib=O;E5yQNM-5y(FQ=QJK9jky={qEA1@n4kKAqMRHay_hF7
zf?iu&bGbSSMxOc_L)&?8b>!MLB3cO;pa5QwF-C3yh0;WIivw8;2=ydR8#Fe1vEM?v
z0w$(!Vew@fqyNo%UtgcmL;WTWi0GuGq`>wgVW&nWC58L?A~avVj73ptnV4j4n5oIg
zTmz;PPy`OA1Xz9%&m$7$-0S=nqus7}8?dlIZ%dS!{J`_<kvB5B1uOLq+$x12>bK!J
zW=*m^d<IzeRp5?c8lj<GCdS}8IXNcq`!%QZ?;kTq%~Mqog0@_AKkq}%S&h>fZ>(a%
z3+gvZx?8PVhO@-NX`#OQG89VYfpmY$STZ|~p{B{{`GKHFTU->cg`a`W<KyGAyEr@c
z9RC}fV?dUnyfIl!Ih$~SG;yz;5u#92D+hJ!vZ~Msvs3JM>%#fb<{yULe|h5Q9*J=&
zF*}_c)qmh;Gz$UaUeCYj@zQjOx;_Tx<2jvBTWKI6$fdg*tA=Q91{xT~mA2&n*l!4#
z3#~o0RWmtF8BTSA3A9hFBAnOZd#!z~WX~$!w5Giztl2NpyS-?yY4&-usZoVv)YV{+
z4HKw)Ht0?CBM>JaZbb8-5E27}I3Pr_*-aNuKiuIx5}3`%XfBsi15x4D;l|L1J-&@!
z^%(r?qf+_(zewmQLnGJU%088AO~F+`AOO3O{7KD^FA{KEa`AR%y&rHLl4BIcu(HaF
zj#?p59tcIH(ml_Ivh^oOqlVr8o$w<VSDgRKyliv^h0#0tA9>PDT=FIoZsKyf9v>to
z1R~<G|1Lmw3-`BVbOcKopi0L^XpR-P%rj&$v!9W=6le#4Vgn&J?SNr-M~w1<ml{0H
z^3*D7P5)q<2Hmxi_Ey}phjyOwORmNZKd&tx!+{fi0Ka@eu}z7U@*1@sEpJXw2Z1L3
z^!#D>_ns#Ji|Siz(|`s8qU$>lbap|WEOwc*M>Mz1&#=`$Ki&uo4aF1Mr@;c<s`#7M
zGn<A2!*hc}9vnYT6m^wN(3gY#$mr;>Y~rm2=$qio%PtM8+x#wLVJ}RRmw2|Q4*VDA
zR4q;2rA}Dnx(10Szw1_0y;8h*pEe%L$PDYbQAW0Yz&a9j^M=7ftj~)d2b*7GfOkm_
z+LNBxq;ZS>OD$CE?snrNl?fqQ<421Q)2_4b!d-zKTbIXWX6S~(|7;m~Gt3dbtx>B`
zzQ_ocaY1H`f*#}#&pr>@h)5%iA3V6=O4&6K8W|Vf(5k<ozl!)OUQUcVu!IK3c7(lX
zy|cqH+=Q9zpFgkEX(E=|l7RhK*gO6kzjkI{a&YKpv@Qqd^UJ_Hcc3%T-ZsxDf=3t_
z<|Qh7;qmUP!mqOkmJCJoNTd=R>Tmcj*3N2{Otk4{K-6Z!5;Pq^xAAR^x>u;%m-u)i
z78Jz4b*ir!u6Evm!=>D(Xpmyw!C88ORBl45Bv^3jw*^vOlV_0~t9mjT#Lucun@#^E
z$DeOX7#SO<s_V*>0}-Z2cur~InPim<Gni2*GxK!`H3bR)uguOKt~%<dV)0d!4_(&b
zGR*Y%F}ptg-Q_C9D4SVqJCV`sGNee)!o`nWNknMW8#*G67&V{JbSd-Dak^FbRoq|U
z*`KA!5j*+#x@wedZ0I{MHo5PYd$@cSzbL0-mQ8n{88ofVBek|ZZZ=UGwsGC)wy2kp
zNk+O>U3ku~6s1OMzbof2s_Y*iwu!{dHRl`gslO_ZUO)?Ycf-8eN)G}3Ucx`G^xBrH
zZo8dGcwc9YAwpYeBD5AY?;CSMvu%E`9rw5T7?6sOl^=`P9P76JGgU$_e0TDNVx_`q
z(Fx;`1;T`2^ZgU+DKtu&lb6TDEkp(aKNCDy9i~4<J)Nh)`irLK^Coe@Ou=)#ebM)s
z(Oqd-UZSIU>o_3CfwUQtPu0)NB1)*xgwj-J&<^N?7nu3)&TVXHiO2xR3f;SVb0@IR
zdF@;7Pl{S22CWAl2D`a2$XrYYS~mW%`*HZyDlzFT(~0M4;>Lbkq%fKRl8W|AZaKY}
z|FpPQl$(n!MgHJjPyq8;Vs>4QrCG{A)m-Xj{BFmk1S%aApA4rD90`WU{S9t6{}CK+
z&9uHp-Gzj(xqFlVe1lT@^Ix9Rz+ZewC?jc*@eBea^w#bAcS)(FdFuHX(6U~>8c@DI
zL<6lTFS|=FA(yv~Mc$<?Y#pmjTBqSV)ppobnA|LD_FKrG(61e=b{1A09_Q&$44GBi
z_^ut&^S-`j13k2)^K^1)xj>aP=J#@eNGUjepKMYkB?^x$2WFUVf}sNCD-iTSD2DN-
zA=BG2za<n3oSsYE2gJh{vaJo=OC*J~g~R>5XXb-MZQ-)Gqd8jSu+2DX3DO4GPre&Y
zjOMAad&LN%uf`Z9D|Qt9P&s_s@w9YmwyP_9P{3gLo4LwNlb6(xF^QKtv7b%aQ-J4&
zH9`~vL4Bcyc>x9;TWjkdz<+$Uy)1Dt7=qzWtJzZQqD8%CG=vV=OHF$m4+y+>D9=xP
z7;JU0V0J_nHzPAM)k5vr-c3;=%&zCkz@{1Z1GOx;+(<e!q%=4-cCozW_5%(yv$Qmv
zsV)($wk8Lb;<_%8(r3A+&(Q=iugk_^CaDubP$EFq{A}*>oS}S_zxXubC!l>f^5<nX
z6r*aYyr8NmuSWyua|_bRVzZ&gw8y42^Z~O<=u0jtq3CFTHPAtE74Y`0WbS@1;4^Ya
z_L#J1afLW|xE<_8ZM=n6g#fk7DYX6*tghWdVg|XR2VPWF<u={=65zx}uNvF~peB<X
z9Blu%Ia~VuX~-una2|d1_ei?sWnN35>$zuT9z-vglm!9<17TJNhs+>J{~-9StQ&nc
zoLlT^>%Z!m%Q(ZNg^8i`Ogbk7`q9~7Gz=dD<08_?r1@tiRnY<juIujC3b`8?zxPQ<
z_=;P^43n$OqS+_qH*d!WhcHHT-Sw9iYwEe)etIJ3KqkPQ^nR7QVQ_FLRo<Uy9)?#k
zSs^ciK`2lNn4YmqC)+m30GRyRsE4)S#c}k}U+n&kf9<feDTQf%na|=3K<>+YbR(0I
zHs$dx%BN4CYSucjf!g&hBSRx+B<0>3pM_uEPs_&|a|m|GBDtg38KHafinZafd^`C}
zoipa4pG|9XGl^lBcLZEAW^EHY0Q#^Y3Lu)n#P?emF<o4%uyiA%4~Lv;dD%`(<m3!m
zaxkPC{6&C&2=<=S`WPY1vjxS*j{V{E|F02uZDN>fKl^WINB%#L!T;aRo-}oee|COe
z;=XS&X$c*r$HF%R?Ovy@*N9eWEFVBE(Fz$TzO@u`F^*>gben~xC4UUet9R3eTFNs2
zCksHIrc6#kl7b?Wi$S+gh-KW|1YvN63CAz(88f>x&@sGxd`Qp;lwfXE_SQ$`RSo9)
z!-t){z4%bTFY4V=c7G$|#UL!iIRMqV-5yG5W43{Y_4(KKe2oy8(?FHo<Kuf=Wuto!
z)S^Aq5GG9N-QMgGo&)AKh8X5XTFX~QNH31=p?fhHORQ~;_A06c>X-mFN9OE&6b^}C
zj9COmN#wnoUva{?{eJ6BbY9JGZ8cx%&hHL&L7MkX7vxGG6b!p<#N_q>fR=AhQk4l<
z`Ab(&hjPD1l||;{NX&KLIC;_uQ4PyW#v8Il)`<!mij#xQ_s<iB49`!*p*qw4=6$Rv
zmFBR#F<E9dJA)gMo>t=d=ha!c1D$_3yU2SB{+*E?XU#@O9(oz+^f!*IAPQ7!dM($P
zP*G4|!+2#xxC0COHoOvy<?wFRt1t_Po&`y>9xvj3v&(K~X2D*2E6srwP^_lQWR45b
zH`muM&&cO|F1?fl{`FJ2Aoq?pVe!zyVr0k&uhC+;GR@m3x1RVhzCKL0nK;j;fr>qV
zNh;9OiX3ga<xp?y_r-7T?01*k5DGcOBJ=uyWJaetyLb4p)1O2@!p|?}el-XZ9lYxd
z3=!`8v@b?VFn*tv1h8<1gi1!rm6#3Rcz5j@6CWQI6wwS8Yd@N_ka&EqTRO`KJKbGj
z|L~mnTQGnKKRQI7y5{npO-pAmGBGhtfYb@R4?bjGfCtL5p;OHEz0XH5YiSRoD#Vpb
z=JL$gtH0`qx5UHRZIglo83Rz{ARZ-O-G8#VHYVtVdM&BoMjb6nnwFMk2eX=<qVBZ*
z;VAN_x5)PB_$guDQ5p>It@Ymky6qB{5;P*2kdTnpdv_3~XHqi@{A2Z8)PU(r8_ZLA
zXl7x#1e2E7g#%PBZ_4ON*o4K!#gC4U*=j#rNfh>>-`6e={8C#B12<&Y{Ggqi4P7-I
zNaU~+RWu}HYlgpWL0@HD5+X`SsDkb_ENpCw>TvL*h<o?$@s{P}q3-uoEVpC9oXE#>
zC^m{vAA16Fx`<cA;vlDGtIcp|D-XpsFf_o|LAyTR@`tu5nFZ;n`@u+Q?QAk-6%{<4
zuC4%5HXtz&GWyE6&~ob)Rqt;;@>e9xb-VSE__;_w+Gj#jdlnK}AZCi9Ur7!$lc;^m
zZ);Q{uSpn<CMUNuiVNCsj$mQ|_SF}ikU+{$@F8qrG<D>%%JsMXBa=<cOR?DDyx=s>
zfV<{_IVHCz<BWKf>pL}BEr$qZZ<e{0$w%+}4X?6#U?^{B{v?nW$(DAfN!EysNt<2z
zQ^ub|8QX{?cZ;M0zCWkON2taDuR_N}$F;^S$A0Jjfam`x@p@|#?EH`7&F&8?o6l$l
z2+%2%l&?w|Qc%?VxgL{VklvfDpIz<oPpFn_5B|VENiv_zSj6Y#)4%NS=mQkfN#K(S
z0_vBavvPk5S(=%X-*oWvs3JqXo+Zq`aFJX6W(8PnW`%KcC0D8G)rL!qlR#_sQB&gW
z*#)C{8rII;2f9kuX;+)e`Ut$|Dx_i|84w@*X{oe&k%RZHgdAt~@i0U7&i>cjTRJs5
z%mpxGSO3sWuvg%W>aH8pW&NZ~?CgpzN2O1hvQ0sD$QL1e(WVZUPw5-8>C3`aXMO(9
z{ycLp7qA@qczpS{b;_oA<JGQ1?MtnH4Fl9R?TwFqrongU=PnWsuM)@os=Gnj|FSCL
zP3&i;x@_Cg*xRpYVr(K7N7WOBUuu?mZOU!kzI}z)WQ`#6gRb#O*><rKif<hAVmx-M
zP^8z5`5BK@Z`zw$t;5)xb$<^g+v=)T{tC(;%bILJRl7VqOT#B`vcW#gp!PI`zYZpx
zivf?fVB6S6Dl3zbg}eiqP2)W{DpNxP1HZgHcCMG@%~MlffH=3?e7Vo14wI%VQL;F=
zxVe@0^FD&WQ08WT{(*VEX;S9Ez-lCwd@0MPFFyA{F})y`nzM6%@>%+5Jxy#~`iM?M
z$%x5NmJ}<(p;T|a%!w3N!vLdO_L=eOr`^)HMtu+RPH(=13zjZM^FiOeE;hIRgqDur
z9p&C#t>1wb(RV(47V<aY+BaUYx^Q?@!=ra4(n0*@!0`j)z(Qk7mQMM^xAvwF#%jHE
zzN_aQ3)!BWky8s;v`?6q*?n%hk$-_1GhB54Tr2n+*QF_H?`4HapLo_tVS4Vcb*_AJ
zOv;s!-JU%eH5CIRQ&2DjV#f6i3=E3P%2*x%>A}O#A2T|t3JwMRcS`_<P?4kmYrz_K
z>Ln@tOas^Ho2|I~Rg?3q!XgL95U~QcB2tO*BmqucJ>E=y<001SaN6#rYlq#vy@tti
zKAM#aO&fD349W~*i01BUOd20y_EUG;@u5%27n=$f>*H3sr~C<+5geS^h8oYrE(csd
zKCVos-L<2}lz1{_xW#&VxUuZ!HJ_R12bZ*XqkMc?O_#-1ggv(VakOXl9?}Up>T5HV
zDyEIIC*)z&F}B0s;JIaoDy`D8!Utxh_$-IWe7QKpmv#ok&oT*&PreBf-dZ_yRLv64
zqh1I*jx90zP6nuWNkzp9ghc2nMn*+RIyvz{8=|xC+cJ-#8nivo@=||);ZzUF-5`5Y
z$H@V3940^gK5y*3`VpdcxO3DZT4Ub2NI-r1+prS0w^vZaM_s*eAz}$9&ESosEEkn4
zmDUS?eu$mbPX-0KZg&rVEY!U%x)Rmu5UBW-QyA|@abk(i%T%S1FcH?e@e!AluVvCo
zq8!f@e!hV>7dJg9xpGn#nPzQnEd0U*g$VrMsw_tg55xWf{TwAGhp`}YNkZ4+==^YQ
zXlyL@*EY1hK(>2*{CA}yCov_<F6mEaST9u#t#i2PO~qhAZ&mIFnI;U+i)6Z-oV?iX
z{Pb*ApI;k4oENT7jIgejdhAm1kofFA&aKVJ6#1y|h9WaZMQS(N;BV%!L<@C<e8lgL
zJ$4t}n-+QfT-r2hvQ0gErcBb)r8%jX;7qj6>;vwOm>Tb%>|18`D8WsB5#lcu_B`SR
zrM0uU83C<Vn0B{!bX)=nxYQJ~9z3FRTH#n|&+T5EZl|ZG`^UyovOM{4m%m-g%<L|-
z`cSK@sld~gl-&Ej`ug%{D&P29g$SjHC?PUrOvcDiks^mOg(8HAN}|jW$($+klp(Vy
zGOLV-%w$NC3?&&$rnvije|Oz`|GKT!TCK_%-uHQ)&;IPaKl_CYdeVJOCv^rw%;?O_
z1rT(dot@X_N8iy{OifLF`}Hdr<RdWBz3-h~h`K4&`P<(D_V*DO7W7qWQ_jmXtR`*?
zl#`Q_S=rgC`T4<MFq=YKH5*8yt^UfVA!K`ac#uG<uC6ZRw};*RGm%lrad9m#l05?O
z;-L6hSXi#zzOAXGq*PL(@2+xHJFuj3dFcyxYFYk*Y4}gBwcQ7KTv?5&=_fj86KR$#
z(=&)BFKT0#KX!Lf(hPs16?;?MXt6nVY3s-I(dCqzoi9^orn+}mezeWeRu*0T@pr60
zDphLw3cEm0vTt*VMTMJta(X6zhTm~_y_2(Jx%#(1E?(jo*3V(HSWC;v7U!-6coT;R
zT<(gA{0Y#a5YVG#3dQB+6G4Etvc3m}&cM!205+YgS_+w|fw7>Vpx~}(FF-n2an(C_
zjv*W2)YX4&JHBAj1(JxWnc4FhWBff(Dwl!+do`B{518AA{(gO@#F&_7T#Oc9+6+%7
zy&Y6kR2v%`F*5dCXu2}2I+831@d#Y;!CN!#-_KVW9T8E7Oa+{!rqG!#B%L%635|~4
zzqz?t{BvWYyY_nvw<n^MlvPxSNv;cHl%eeMW4+nha8a0<nx?v)*=Q?gIOKoo(=rR|
zeH<i@W;Q*yN=`3ds&ZI*{Jx5h{BKWB>0A3T3xbqY2>Y`PgWtv5XwEX+XQWxQvamdM
zYmF@~>t-|Yyry&guY(ITZy5LkRYVWQo;iK*GIi_^>*DMWqvY!XLT_Xov)co*E_gC`
zw`IP`6BhOHYc3TfW1}C?wy2O2m3pp0xDaW_DpUH!<l-|1{vHlpjYKggFE2{5C$I;^
zika^K$mc$K)E{$W4v+~LI{bWn7e-v?NS=po^w5|gZiNwqprk~$G}Xa}cp3g<3a~XO
zfry59cQ%C0zo0+_DuUaeK79<mheC;J(b)2R{P_5_w`3%tqr&M|3sRyGZNVcW6N4V=
z)r~GLGMv^h45%0x#p4IYMn{#5joG2%L<c|4Ie@`EF!yaRDv$z)umK<%bV4A9QdCr0
z`pk8tuI^D;nGAIArp1X?F>&#46Rpvt1cwiaa?zBu%xK6jOGu1tT%@9)czNryY(hc;
z+8H5j4vPsZOG|KIzK|;cz~vF+0lDSQ>Y@cq49ettGb*nntk`kzd3;ijzMp^NbE$lV
zuwi&?(%I(JFV{O>{~9=NI?@`p*G=Jb>~dn;6KJ|k^fU@A2c>N5S7IHutz26^`95TW
z;L^f9J6zSCu$P=vXLkt;ceBfn8(-p*HWTfxE)@Q}zB}uVJWArbBKOVlst4_Xc~)hb
zEGlz{>zpIqqJI{NF+DR%sL-)e!J$uUpCJ3l+|`qJ-I=)~S)svh;~YRjB-NXUG6P@s
zkR5iPdh#-AY(ID3ED}T+DrfTa9XHykMkJlHakAz!K|wT=6)!Lf=H<1GEHg7RCN56E
z%~)GI0=kG{sZdPdEF3Rb)DRi4*V?h=I{W*luusMi)Pfka7U$Tw`1o&gbDEHAAj;lt
zBxq`e;!te)SP#Xe9yg)r<;$n>Ep*h>WY@5mF2qY|IC+j#Ig>UMfQinj*5)3>dW5jc
ztD#Jx_v1Q#JRAujq<a0*lpJRvDN^iVw5Z7#-UWMYu-3EI)(~+`kKo-1OG;`-L;;j|
zcq61~M-i@~Rz4H0y7|_N{GzsYU1Q@}%cp&PeW-^GA3v7n#AlC~clA6DoNB+rBO5N*
z6~@!O9(w1kY0Eud=g%MWtk$Ik{ZAa^t$Z=0989^j_&mawhfKE3XtZQqS}K3V2S4`|
zh*i~NkcUsTQ1_<G?^n4x^1pX|njhp<tg%m4|JZZk(kvh2N}bg2;GtsMf6NMrCkrku
z(q^kW>L~;8J!Q_PTea=ctFga7VPLr<G<>dk=<dSMF02`YWm}8qb`mzdPgYF|8*UQa
z?i!!u`)5x>Rr5uS%7Ip4VUxafQ*2Yz;=gUW(|kXy97wlYU)KG+&--{;dHLQ02Lh0K
zg(CB|rG*ChK{)aJ)QYre$wu7&UX4u^Oox-BIJ*&g*>jwg@x~5LPK`+Kk%~GRrDmbH
zKRJH3E6p!qiRz)h|4yx!3cBaMK5-a$87@YAOwVB~+*t7R{qj+m!n}X<ym$p68>v2U
zQXCc&3!9m-h2D4i+t$Ck`}6OA-9q|FScLrb<~<qr_(R=La^RUjgq|Q~3I_%UO_6~1
za2q*B#IEufKEFp}J_r|&e&EJXy~hm2OcQ}~!G`TV!>y;w^9rl0m*U>^Hsz^`8kPuG
zYsCLN_;R5?t++?<wIeN|kiTZPMQ5gPZq1jv>U8BX^XE7YmA^F#Nc2mmIJz>*#<Xh6
zMLP!RrZo!OwSN3d<GSMgIk|^+eC-U*i!#<n>8-7A90^>~m(WzN3pn8kjNW?2dF@r+
z@h`u6lI@y0?rx5A+_iK57rwz?US9Lgq(vaNBadqLySd9OVpetMG@X6I&QrMz?iy3k
zdv=BWGjqTp^T=PJIq5z{x%m&AhK7bHsHhxpctGbPxt!#jW;g*wk?HYmJU!v3?P1>?
zd3UO_g+x<fD=5FI($3+#IGw|-g4xoA<z-9IB4{}=s?3#JsUsk)|1Vxzf0n+qYVqoo
zE11t5g{r!-I+aX{`GWxi?uzCP#jPu2<Y~qG8jEv78w>U@zA9j%Vd~AYH+P|5y?Nh>
z{{fN7y({YM!hWlTMK$$D+x0!yix}00MFlmTvwz6yQ(%4O9sg$j-1<|OPJ!@}akW|D
zoaLZn{O-i-#%WPMUReqon$7Vm2K3nEq}_9ke4&`*Eh`>u@Wj{GHzDmk)bLoS;Yi+4
z(f=D9O#tSA7JN6Y66Jd@8yg++Kqv#NU~<?tivLQ-zA+h-oI^?-BV&_u3MzM)n2JS_
z%;8rrfgR4P^_Gi^7i|g95pWNZ4I}2~yEWaj_?f~AGctVB(zruHC{?#NpqyG;`@eX>
zXKZY&TacFGVL$e!I(=AOWGVL9<FogiU#RY~){$zNmRtGfuX|}E%*11CW`VnE$=JlO
z#7=X0Nk}A#cIsWCx5m$12c)hqE7s<O7mr9y2NlI*Mj0e1)bPh}1mQ4x52Eo&U?8`&
zbTlkYMAk|~XRsYQWO36PtKGCAfC>Jro<bAF-+yRNKF%a0wm|KUg_{q=t|@GC2sm3B
zCo;l~@D2*=4di6`F24xoP)vd?>oMw68nWdcJtD^(uH}~+_dLUroR*<XeoVsBu^#t<
zrKhLH-4$U&=Rrw&ZY)s2%e3vO5o5fBHG|^DJUOC)kiYg6&WO(R^NfgmlYuJ`%sR4_
zQVbh66TA6CH-KXn`t(hZM@Lt2e=a07^)Q@Q8_P!Tw!2;I(DzD_AZ%1bw_coTacg|u
z@9Nkza5Ve2E~}h_;7u;gLsM7gix{l)hf16N1nTO}URf&DvI@F-_wI2R!K^TB$<s}G
z&GPc{;c6hH2qe-42Uo@CAY3wDx|X&0{&cUuuu<teim*7|-`7I)YQ^i*vVW)h0#7(h
zj{f}Fs><PhBw7lgmcRtjG(_P*&{%s}Sq*Z;B*n$++S)XnsuBMvVqEp4wzhWI$@{sE
zrH!7!Dy|nVKmU`IloW;^5c~J<kEZ#_$sfPAkHK=j%>VMx@1y@M1jo$wmT4nhy7jlQ
zUgnMVKQ;{5htG3OH8{M!ckjnF%Tubft(X3`>q<MOD&pRMDl(^n`{W2xy+||4QEJwo
zN`)DDFTkXd?{m`yC264Cfe)nyMz`?fWKG;K0|X}yv&-?bNY*U1%ONrG&f0Hlc14d1
zfy~0+d$Sn{1Om@;Y?R+z&3Xvd)7aEh6Zj>tpx0p!kvVZfH?Sx$Ab^XL^C1#Ep8|>k
z{9e@8e*ttVBP&}BNF*UCY0>d>dYWPH-ghudASs3(2Pn6qVlr}KdH{bc+Y?X_H3afP
zix-jmvy+C#3<JERGlJxVfW;88OP7(PxxBor+jVj~rOuy<OLmu%_G(?ta?lMPXn7Qn
zlVeM7bTw6EW4Bs*gThak9s(mGv=bfcn~B6zF#4#fs_tf!(fTw^J$=mANW*66)n!(+
zx9a`3Q@5!7hV)c8v!s0vttQ?czREOM=x)YWsKmL4dRm?*Q%vQg+$s0en#N*AYKjTf
z`d5s-MmAhYR{<O0hXg+?UA0BA-OFsG!ukWRMjUJr4K9f(gqKzw?D*8j#KgV=Z%(3~
zmE?yjacaFavYMgru4v9TdIKL-IxZ6M$=J7V-221MaPH|9c|Wj|LRT4(kqofGa<JF}
zv&lPPvw<dXPA%Z>LOsRyQ-3&v5|y+X&ShL8=^{D;JOTm%813)O(G`Sqa1|?+*wT_?
z$3*E}d&tpJyIe`@5O&l2=lfrD<2P`FkM{(!hr<qKjpIE=+-f)3PWz(Y?8l#f7_Hpy
zm147pTh0sLzSnj7!bv%=l$@hMR{DwSXTgD=v$g$kF$GB!yADW@vKDXNY{kc8k-o(S
zPtLvXLmENT6y67(x8ovF=fn*KSn-9OgQ0n^v$Hc|ooF#o3!tk`agdpsLeg&~Zy$Be
zlhfo@rl#-kDx~@B&d!&meGJqT)aHD9bavwMx~+WmgAd2t#>No0j>6ll_dFF7{6eVT
zHb%j+>fnyxL~E?Cr$D7Pe0{?Ut}A2|jN$<6(<^xMMjFi0)2B~u1i#tU5sCi5X3zpw
z7h6SrQyHnJ`OU7QTW4f^1gBJNY;3VB7#1X$0Y*1KY(kJ_zRIpGW77P4sqP+X3N<Z0
zRVUbo%zkUp;1D}3F3t!aHr%ipNYG+sWmQ&HeFg0ThL@atTcqTsU&>~2q^0nFvs<j#
zwH5Z26cBhDXsIE%wa)(i-t`D3mX~g;i-x@f(qiM~IqTHN+A#|gE>bL5$jQlj`})MB
zrJJyK>%GbYKF%yIEv>>CEG8+bqN^LV`;hGDuU~CgNtl!PkgRC3Y)c^Q#y5r&Z*lY;
zIj*%e%x&n8@p3V+)3y+6oR=(jvNrS#4-fBasfE`GUSb7VSy?2zika0vVOVU{{#$z*
z4G=;pFbfmezJ!c{nw2qHFa*G)XN-&vf`|*@P!#z)Tx`*b_pPt5ADx;~g%=(<tqpZ`
z<oxb!1cOyvNw>8hFM!FPr=|j2Z^PDw(Ud<x=!!M7sIidQ&_9g_Yey0}`aSF1nhpnf
zzF}l^xo4SF$62$!mOLC(sbe=`eDeO|uB$;ZFMA3>_vq}BWd85k1hLB-&W-@Xm&1ug
zBoaN#-`s|8j)dq77;$&UBQ(qId_A4*3<vD@{z49afB#}v*t<!IDJv@vpiv53j^Ezh
z)AQp?ZEeCkS(o4Z;FXZph|_P5EUM7;BK&IeOH1Z3!V6ukh(yhMRxY+mjNtn{_azzK
z*<dv$q#?7YoI6Kd>GaENah!P98R{;aU(r`Vdg%LagmJ5474f*vf~bVY>Iv-Hd*ML`
z+UWk3LMOSmgP^rO{G_^B-ysuC81Mb9<=~scHTJ>cO}k&M+Y;$Jb2t~KEy!f={n8U&
zq|{Xn&L5=Qv19w_j~_%dC?vl>4p4J+wb(eBAF2=`hOhrTKfew6zvneHCQx<ZOwIUE
z<^<O_{tqdqG)d939rFjQ5;yk1JPK8-vfGh{mNpIPe#rYs0wzEha|`ed4v+AIJbIb4
z4GW8lX6R&Kj(rGjC=KKc_7{o=41v!c{NG+xRYzwZ_5}pzuW-U6Oa)!^C<xuV&fB+d
zCq-T0F5$3()nBbo)nN7S+!sCp0UB7;+LIMK(0iX(SLc?Hh=jQtKIOzK3e3Is#*^2-
zo$$nrq%|G;RDGjK=*zA5k{cZjW7SifbDk1@v+j1e`5S)~<LXjZu2&cY(&ttXaFMVJ
zw;e;K2pt_A*)d5;-4<Or7?mGN-uy`NLJ$56RosmE{rjH6`i!{mDprEbgZUI&yIkBJ
z+u^dkw6wIo+QAbl|I<Sb5?M&LR#@oN)z#nE)j9wEzISbHEh@*=9x;zCFva_agiJ!D
z!PQ_mbVvgi0qyd&k9h_wt4tTNtK3!@VC5rm1b`J`=Z=uUWl4&@#>$ID{34=q;i<o(
z_qejM@=}lIM3~~8Q6=m-m=oU(4ILoSa<+DMMJ4$)(P1eb4wIMnSckHkP0cIZ%Izo4
zN?+_x2@DarI<j}~I3;CoOc9K3xQ6@iQO^dkcwy{9PfzbRf@+zVqK+@|9yvmG%y!@<
zgEh1`!M=e%-@DGV`;))LxygUoDn|&V{gyv>$^q$HLh-!S$aegn?`gfSh5!HCG&Kf$
zd26rG_BYXN)jCXtB+Nj|<IgzbJf54ALmFy8II@3mF!<Wt_*@7@RKj)<=-sjXRCh@(
zS=FaXlk&wxc@Lj7SC6sA3H9q%@@LSP?g;)z_9AqDcZ%s5GWL<`x(|olStb?_pW&1F
zw)J_(*yc&i&7UVd{Hxvv<_Yl{#EV~x<Ypg<Zx!Yk?R{r*qIAwGobmSJm^1T^vv$t6
zJC8MXBm_QwrpIHXsug)4UatG&M_!OM;#TdQK)fVOiyj;t%5`{q)rkCTC-!9sHSJI#
zu=ySjm=sJnt^Ham3aK=aw*vTuas{S0^?%QPJ_ve<4F27R(tnQ9i7$az#lbv5$DnlU
zRzX4@CIJL>EuAMS%gUZ6Bz!=itCqI5Ia(t)Wl5x9l7hS8yExj-c8QzW^h%?lpZtS^
zo>F!S2kV!Y=NZVv_t9F~A3hlgY8b@*x38b&W=39z%=PDo$s2tiz-iGK?w@wz{uqD9
z@uX|R8G<<PeFTfJy=0wA@}6!aekm~f{DPK5E(g8Vx$AJZ%wb8^)m_?NVdb)}RK!EW
z0hep0riZ7VkOIv~SRV_xtFKQt<^{SRQaeM3maP2s7`rFaDU;e!`bp4{JlzD4gf=xu
zwMJ^{_}Tj~SaKoul`wZ&;L_j4c{B$pZ|!%`guJ|@t4ksrahU2Gde{qanW(GN0(zm@
z*!Bbq0j^w4O-&q?IagFq{j)6VxlY38-K(#JlGnBc>+0O-&!(N!t7h5QRKD<`qD6k|
zbN|-(2aZ#8ERxT}w5>V|B90a=89RKvz<=<WDDU^^t8Qi2S$7?j3TLfUJfnHsj;Q!U
z{o1)bWMn&MNY4n6bKB>#Bj19f$oIz~VWC#xErYW=ycBI4>hlB(O!D5B1)d<i+WOg(
zwZDEd?H27*3J#tD6eVJE;XDW(Kmx=-IBae>!)n~z)+XFT>4{+lGWgCDU^6H2H{cc*
zmX_cQe$`!Jed9)FshtrZawA}^Gu-C*1<5u_R)vN#{>!05hx~(r#!(Q^ZG9UXI}KAf
zrpF>!yIOjyWza3TZLUt?!bKz`T)1^hgr5E6s2_*NQ@c?93SLrkLCWk!$}n&-jP;LD
zfdCp;0VW_xOJf=>PpdLY)dOb`l!vi?6VD0UxADozML2Uk)_+Npod`AXQZk6k%6_%x
zSDm+MDhj>q0;s?;=%0@iZ&`JfePtV})?T)KAJxi6zv7EtV}V%FcF*I5oJOx?XXnSv
zEo!Q@P_{Gefm0{9z6jN|m3en+%--x5Urrl*eZzuZy7Hd52r~j}#Iq*Cw#Myg0Q%6h
zP`;X#w}t@p_!;x0yvxF1rrqnGz2!TM7UoU`H@s3O5G<jt=Upi;RyG7^2ig&pEW~sU
z_UCoXr(H;t)fH(2a>KYn^T!~806#w}j9^_yPUeS%6WUImu+L+d=8S35|7qQVhur}X
zrEYtO`<cX6?4JS@!~tClgSPJvOH0eUuG<m#-htb&fO7qbpcUCNW3R0T`Ku6ZN4Q22
zvkJVzNLe#I)Y84nMxj15Ws;=)W@vDvToYKBpPd_AZc}sesEjk^xR6;CK*L8)Te{-I
zCad)Q>s#sCzbcuZQ3ZUUGo^5byXBVt`YvZ1`TqFrdgF9QIrCmg+K(SwxJ}emqoKK4
z{fsLt+rzFFec!dS>wWmGYL}j@@VVn&W@<q*If6-_v6M(X0!Ro6yP<t>U<(NetxV?@
z!W`9WQjxU2wpQ%)%TV^-_lHnZV0U=n?2Jfdwufq(<fyF4fJi+Uh{CBJ1epXWy+@an
z!!6t5?1B6Nao_+ui%Mr&_ZTBvyr0bVnH)vcuz=9@zr#2fR@nhb8y_SMW9;O8Pfr9O
z1fF_u{eL%dUQi5BVleH}B3056CmD!3-jjYlB0$pc#5iCv<Gy|MREVpO--K)W`iB^?
z1R49&QZ9vRcp89Upf%shdgo;o-y)8-OoPB@RUe3xtFOGnhJpvS)7x5mD4;p!ZtD<T
z(H}Q2)Mz3|+!%NYt!`dO{L!pC6~EB8)mK(0t6bv=Dw)SxxlOpj=2s`}YzH`eaF@av
z83$gviS^95*q@lb67|NP>`1p+@*fZ%4MbwLA>nn_Zf21y&FDj^sj0J`?a$<b;)N5s
zuB)r)gS&_KP{#ZnpPZzOESmqfKg=+`J2mMzd4le_wYa>KuZa>@*vo4(TI|CFv$<sb
ziIZGRdp&;dx%pYaGIi<=UE=5!u75bzHkRuAKU`U(G*^t<r6sZ&(A-8eRjZx7H!~F6
zr>N6$RPRsXOYYjG;L2RC^^&>#L1HC}CW4(?aqEcf?YxH%dx_Spc%wY;#>@<+R17}}
z(4fOQEf7^a|Ic)0XtbekYdr#@^?0?5%5)u7!ipn(vWDQwH4ZWB0Ncd2baj1*-t)ng
zf?((uxqh;WIuw_qAT*JCn6CEH<MV6_kV)RR@LDK<YiggxL{pRUE3*pPDFPeMgvW90
z;B<MHb0|>{!v0*43KqyR9Ep3Bg7Ce|HE!katyM65hu;3?DM2qKt%JBBe)YNbM~s8b
zJ3P1Y=VP(Ln~08KGebnj!&91@?_w3bWtLQlCErR9X<S_W61mw{c3DS9*V-y);9`22
zgPQaBm!QCjt@flz{1#aV!jU1e)Zkpu_s+<C2J2P@Z5Cw4BVcXu#F6f5*Za?e3@}U)
zL&HG5Nnl|qG41>7D&xLFwjj3uT)AhczNkZ|byqln`Po2d>|57Iene-@(py#^*8cge
zPE-chEBl1SJ_~pjB9cGEYHqIR<7GZl&wJrXV1~Pu_yH-MjesiW)$jz;=lUcUGUaH@
z{^HU0^MopY9U4@X?-tTAT@i}uDuQ)3HYK&vxBtbVCqH1;M&Mj=y(s!|2AqHrXBIzC
z<9GCQ1kSAU%0g(Xwa($xW2Cl;t6=LObe$+fza4%qBV*If-}-`A3Ny6Raf{`^A-yx4
zS^8BEHrX^Z8oIbhRuG$QkMwq&^te-7+J{z=30N@Yc1qzf4Hk6h%$TY;^0j5+e|`)%
zpsxGU!YMKml~D5V-&?OMvYwBt^b2i_n7mSq=LMvr)u%d+HIEpZRvdHMeo7dRdT4H)
zvE?GL<=g2}c)PqSA2qM~(2g+@F`6FV|K1yi0rap2uSAbAGOGVR@}=D~zs<*+FS4+*
z9(Bv~DGGe@WRDR&#UF397_DYQeJa4g8t<bn8?Z^>TZ?(q&wR5S=GpvH7%p~(HoNEn
z-dIDs|J$JBuc0WoK9<rt42`eL=h``<Uk=}I&@oW5c@U>O_kPvaGG+&~IkQwSWqtn4
zHDH^t$*KNQ+3oL)d?gf<9g{`U4^w)oTO1~FB7qXOM-sq4*&iLFldHX|OCk+!GkvQ4
zb7az%g=+W4S+q>8Zp-;Q7r6KI>boq@5K*d0gUcEi?MRvu31MWUZXr#WZYBSr@TiS~
zrYGnqkwUsmhu#hj#-d4@Y>#jHm#)lQVCWZ+V`G=gv#0mOU6Y#eFUi7(HwH}I+}-Ul
z;31G4)3}d%ni_=L*!M8*dLO?<V!GHB|ByVpC<<@chN$o76k;VF$INSmu%CF3(ay+r
zLDCoSV?ld%@nTpE3v2PcmIqae25<l2;SNT^UMYIzp6kpb$wJrQTfsl0za*xddep*`
zrkuWrc>kh)f|e*q2C`|VtmI-eHk`A8`yB+u!ft)6E@GGQ5&8U|>}ROq_*7!gmmKdk
zKU_VlSXNk%16N{bm6K!%$X96O<<0xMaP*H)WbHMRouFZ;r%3^eB%%_J4~d0{78bUU
zUaHGLZ9{kUvn8Gw5Q)ZE9FGq<AZ2^`;>DJOl^9qgb$S|eJus8a&T`c@oA535Q(?LZ
z_SPf3yy0+l)C@%PW%)_m=p+Ly!q~5vlvII0$GH3ZgW8-A)Ilp0?|-Po$<IN$^I%^7
yB)XgV8vXYtcGLfMme$<fMiOa4@h54Eioz)A@$(j&NIWfy?7Rv=x#09Q@BalN%vKu!

diff --git a/hamilton/function_modifiers/configuration.py b/hamilton/function_modifiers/configuration.py
index ae62c74..829fbe3 100644
--- a/hamilton/function_modifiers/configuration.py
+++ b/hamilton/function_modifiers/configuration.py
@@ -170,6 +170,9 @@ class config(base.NodeResolver):
     def _get_function_name(self, fn: Callable) -> str:
         if self.target_name is not None:
             return self.target_name
+        if fn.__name__ != fn.__original_name__:
+            # already resolved (for another driver, or by another @config): only strip the suffix once
+            return fn.__name__
         return base.sanitize_function_name(fn.__name__)
 
     def resolve(self, fn, config: Dict[str, Any]) -> Callable:
@@ -179,7 +182,8 @@ class config(base.NodeResolver):
         fn.__config_decorated__ = (
             self._config_used if self._config_used is not None else ["__UNKNOWN__"]
         )
-        fn.__original_name__ = fn.__name__
+        if not hasattr(fn, "__original_name__"):
+            fn.__original_name__ = fn.__name__
         fn.__name__ = self._get_function_name(fn)  # TODO -- copy function to not mutate it
         return fn
 
-- 
2.43.0


From d815123d451e93548f99a1eebebbdbd8e7c6ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:17 +0000
Subject: [PATCH 08/99] fix: @parameterize/@inject honour a default when an
 optional source is not supplied

---
 hamilton/function_modifiers/expanders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 1b5e726..261b8e8 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -195,7 +195,10 @@ class parameterize(base.NodeExpander):
                 for node_input in former_inputs:
                     if node_input in upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[upstream_dependencies[node_input].source]
+                        # It will be absent if the parameter is optional and nothing supplies the source
+                        source_name = upstream_dependencies[node_input].source
+                        if source_name in kwargs:
+                            new_kwargs[node_input] = kwargs[source_name]
                     elif node_input in literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                         new_kwargs[node_input] = literal_dependencies[node_input].value
-- 
2.43.0


From e3379b6b5301b3768514f99e58b70014e985b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:31 +0000
Subject: [PATCH 09/99] fix: extract_columns(fill_with=...) fills the named
 column of (name, doc) pairs and of immutable dataframes

---
 hamilton/function_modifiers/expanders.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 261b8e8..de22ddb 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -627,6 +627,8 @@ class extract_columns(base.SingleNodeNodeTransformer):
         """
         fn = node_.callable
         base_doc = node_.documentation
+        # columns are either names or tuples of (name, documentation)
+        column_names = [col[0] if isinstance(col, tuple) else col for col in self.columns]
 
         # if fn is an async function
         if inspect.iscoroutinefunction(fn):
@@ -634,9 +636,12 @@ class extract_columns(base.SingleNodeNodeTransformer):
             async def df_generator(*args, **kwargs) -> Any:
                 df_generated = await fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            # not every dataframe type can be modified in place
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
@@ -645,9 +650,12 @@ class extract_columns(base.SingleNodeNodeTransformer):
             def df_generator(*args, **kwargs) -> Any:
                 df_generated = fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            # not every dataframe type can be modified in place
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
-- 
2.43.0


From a7134092c48c0a20ed9ab06c0bd0da2a4c5d99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:31 +0000
Subject: [PATCH 10/99] fix: polars fill_with_scalar fills every row

---
 hamilton/plugins/polars_extensions.py          | 3 ++-
 hamilton/plugins/polars_pre_1_0_0_extension.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/polars_extensions.py b/hamilton/plugins/polars_extensions.py
index 2c8b9d5..8fc4f1d 100644
--- a/hamilton/plugins/polars_extensions.py
+++ b/hamilton/plugins/polars_extensions.py
@@ -47,7 +47,8 @@ def get_column_polars(df: pl.DataFrame, column_name: str) -> pl.Series:
 @registry.fill_with_scalar.register(pl.DataFrame)
 def fill_with_scalar_polars(df: pl.DataFrame, column_name: str, scalar_value: Any) -> pl.DataFrame:
     if not isinstance(scalar_value, pl.Series):
-        scalar_value = [scalar_value]
+        # series are not broadcast, so repeat the scalar for every row
+        scalar_value = pl.Series(values=[scalar_value]).new_from_index(0, df.height)
     return df.with_columns(pl.Series(name=column_name, values=scalar_value))
 
 
diff --git a/hamilton/plugins/polars_pre_1_0_0_extension.py b/hamilton/plugins/polars_pre_1_0_0_extension.py
index 3814f0f..d550b74 100644
--- a/hamilton/plugins/polars_pre_1_0_0_extension.py
+++ b/hamilton/plugins/polars_pre_1_0_0_extension.py
@@ -63,7 +63,8 @@ def get_column_polars(df: pl.DataFrame, column_name: str) -> pl.Series:
 @registry.fill_with_scalar.register(pl.DataFrame)
 def fill_with_scalar_polars(df: pl.DataFrame, column_name: str, scalar_value: Any) -> pl.DataFrame:
     if not isinstance(scalar_value, pl.Series):
-        scalar_value = [scalar_value]
+        # series are not broadcast, so repeat the scalar for every row
+        scalar_value = pl.Series(values=[scalar_value]).new_from_index(0, df.height)
     return df.with_columns(pl.Series(name=column_name, values=scalar_value))
 
 
-- 
2.43.0


From c37e7ae50272cff629851d493c4e873ed07b4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:31 +0000
Subject: [PATCH 11/99] fix:
 parameterize_extract_columns(reassign_columns=False) keeps the function's
 columns

---
 hamilton/function_modifiers/expanders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index de22ddb..e810ece 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -938,8 +938,8 @@ class parameterize_extract_columns(base.NodeExpander):
                 df_out.columns = _output_columns
                 return df_out
 
-            new_node = node_.copy_with(callabl=wrapper_fn)
             fn_to_call = wrapper_fn if self.reassign_columns else fn
+            new_node = node_.copy_with(callabl=fn_to_call)
             # We have to rename the underlying function so that we do not
             # get naming collisions. Using __ is cleaner than using a uuid
             # as it is easier to read/manage and naturally maeks sense.
-- 
2.43.0


From 801a8e39deb6282176dbf3fab1ed43ac57adea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 12/99] fix: Node.reassign_inputs keeps every input when names
 collide

---
 hamilton/node.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index 5755b0e..3e136b7 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -363,9 +363,15 @@ class Node(object):
         is_async = inspect.iscoroutinefunction(self.callable)  # determine if its async
 
         def new_callable(**kwargs) -> Any:
-            reverse_input_names = {v: k for k, v in input_names.items()}
-            kwargs = {**kwargs, **input_values}
-            return self.callable(**{reverse_input_names.get(k, k): v for k, v in kwargs.items()})
+            # Several inputs can be reassigned to the same name, and that name can also be the name
+            # of an input that has a value assigned -- so we go by the original name of each input.
+            reassigned_names = set(input_names.values())
+            new_kwargs = {k: v for k, v in kwargs.items() if k not in reassigned_names}
+            for original_name in self.input_types:
+                new_name = input_names.get(original_name, original_name)
+                if new_name in kwargs:
+                    new_kwargs[original_name] = kwargs[new_name]
+            return self.callable(**{**new_kwargs, **input_values})
 
         async def async_function(**kwargs):
             return await new_callable(**kwargs)
-- 
2.43.0


From 0f887b138be1ae609856db61b40b0452f6f50c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 13/99] fix: pipe_output and mutate work on async functions

---
 hamilton/function_modifiers/macros.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ae877db..998acac 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1302,17 +1302,11 @@ class pipe_output(base.NodeTransformer):
         # We pick a reserved prefix that ovoids clashes with user defined functions / nodes
         original_node = node_.copy_with(name=f"{node_.name}.raw")
 
-        is_async = inspect.iscoroutinefunction(fn)  # determine if its async
-
+        # This works for async functions as well -- the upstream is awaited before it is passed in
         def __identity(foo: Any) -> Any:
             return foo
 
-        async def async_function(**kwargs):
-            return await __identity(**kwargs)
-
-        fn_to_use = async_function if is_async else __identity
-
-        transforms = transforms + (step(fn_to_use).named(fn.__name__),)
+        transforms = transforms + (step(__identity).named(fn.__name__),)
         nodes, _ = chain_transforms(
             target_arg=original_node.name,
             transforms=transforms,
-- 
2.43.0


From c0ac08f5ca18812a38ed390a4dbbf2cb2c5dca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:18 +0000
Subject: [PATCH 14/99] fix: a parallel block may use the collected result of
 another block

---
 hamilton/execution/graph_functions.py | 6 +++++-
 hamilton/execution/grouping.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index b3379cd..908f465 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -1,7 +1,7 @@
 import logging
 import pprint
 from functools import partial
-from typing import Any, Collection, Dict, List, Optional, Set, Tuple
+from typing import Any, Callable, Collection, Dict, List, Optional, Set, Tuple
 
 from hamilton import node
 from hamilton.lifecycle.base import LifecycleAdapterSet
@@ -334,6 +334,7 @@ def execute_lifecycle_for_node(
 def nodes_between(
     end_node: node.Node,
     search_condition: lambda node_: bool,
+    stop_condition: Optional[Callable[[node.Node], bool]] = None,
 ) -> Tuple[Optional[node.Node], List[node.Node]]:
     """Utility function to search backwards from an end node to a start node.
     This returns all nodes for which both of the following conditions are met:
@@ -349,6 +350,7 @@ def nodes_between(
 
     :param end_node: Node to trace back from
     :param search_condition: Condition to stop the search for ancestors
+    :param stop_condition: Optional condition for nodes that are not searched (nor included)
     :return: A tuple of [start_node, between], where start_node is None
     if there is no path (and between will be empty).
     """
@@ -363,6 +365,8 @@ def nodes_between(
             nonlocal search_node
             search_node = node_
             return True
+        if stop_condition is not None and stop_condition(node_):
+            return False
         if node_ in visited:
             # if we've already seen it, we want to include it
             return node_ in out
diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index ed68ffd..9520b8b 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -188,7 +188,11 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         def is_expander(node_: node.Node) -> bool:
             return node_.node_role in [NodeType.EXPAND]
 
-        return graph_functions.nodes_between(collect_node, is_expander)
+        def is_collector(node_: node.Node) -> bool:
+            # whatever lies behind another collector belongs to that collector's block
+            return node_.node_role in [NodeType.COLLECT]
+
+        return graph_functions.nodes_between(collect_node, is_expander, is_collector)
 
     def group_nodes(self, nodes: List[node.Node]) -> List[NodeGroup]:
         """Groups nodes into blocks. This works as follows:
-- 
2.43.0


From 5a4ced85fdb7590af45b7cccbd173705f668c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:13 +0000
Subject: [PATCH 15/99] fix: async driver handles a parameter named fn

---
 hamilton/async_driver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 8a9dfa3..04e372c 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -86,7 +86,7 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
         """
         callabl = node_.callable
 
-        async def new_fn(fn=callabl, **fn_kwargs):
+        async def new_fn(fn_kwargs):
             task_dict = {key: process_value(value) for key, value in fn_kwargs.items()}
             fn_kwargs = await await_dict_of_tasks(task_dict)
             error = None
@@ -119,7 +119,9 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
                 # else:
 
                 result = (
-                    await fn(**fn_kwargs) if asyncio.iscoroutinefunction(fn) else fn(**fn_kwargs)
+                    await callabl(**fn_kwargs)
+                    if asyncio.iscoroutinefunction(callabl)
+                    else callabl(**fn_kwargs)
                 )
             except Exception as e:
                 success = False
@@ -150,7 +152,7 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
 
             return result
 
-        coroutine = new_fn(**kwargs)
+        coroutine = new_fn(kwargs)
         task = asyncio.create_task(coroutine)
         return task
 
-- 
2.43.0


From d309458c286d18fc0b7d8c52620643f25ade3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 16/99] fix: async driver awaits async functions that
 @parameterize or @inject wrap

---
 hamilton/async_driver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 04e372c..864d126 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -118,11 +118,9 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
                 #     )
                 # else:
 
-                result = (
-                    await callabl(**fn_kwargs)
-                    if asyncio.iscoroutinefunction(callabl)
-                    else callabl(**fn_kwargs)
-                )
+                # decorators may hide an async function behind a plain callable
+                value = callabl(**fn_kwargs)
+                result = await value if inspect.iscoroutine(value) else value
             except Exception as e:
                 success = False
                 error = e
-- 
2.43.0


From b7f6b95c579956c3a57f920b92f67d46c8de2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:46 +0000
Subject: [PATCH 17/99] fix: GraphExecutionHook's execution_path does not list
 overridden nodes

---
 hamilton/lifecycle/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/api.py b/hamilton/lifecycle/api.py
index 9b756c2..ee975ec 100644
--- a/hamilton/lifecycle/api.py
+++ b/hamilton/lifecycle/api.py
@@ -312,7 +312,9 @@ class GraphExecutionHook(BasePreGraphExecute, BasePostGraphExecute):
             final_vars=final_vars,
             inputs=inputs,
             overrides=overrides,
-            execution_path=[item.name for item in nodes_to_execute],
+            execution_path=[
+                item.name for item in nodes_to_execute if item.name not in (overrides or {})
+            ],
             run_id=run_id,
         )
 
-- 
2.43.0


From 4cf6c593cc7a173cd41ba3826f877fb778550f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:59 +0000
Subject: [PATCH 18/99] fix: PrintLn works in task-based execution

---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..44ec7a5 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -156,7 +156,7 @@ class PrintLn(NodeExecutionHook):
             else:
                 message += f" Error: \n{pprint.pformat(error)}"
         self.print_fn(message)
-        del self.timer_dict[node_name]
+        del self.timer_dict[node_unique_id]
 
 
 class PDBDebugger(NodeExecutionHook, NodeExecutionMethod):
-- 
2.43.0


From a6ae7b193ca80851fd8bbc1fd8c65bc5dbcaecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:10 +0000
Subject: [PATCH 19/99] fix: adapters that compare equal are all called

---
 hamilton/lifecycle/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/lifecycle/base.py b/hamilton/lifecycle/base.py
index 12ea36b..bcd5fed 100644
--- a/hamilton/lifecycle/base.py
+++ b/hamilton/lifecycle/base.py
@@ -804,11 +804,11 @@ class LifecycleAdapterSet:
             for cls in inspect.getmro(adapter.__class__):
                 sync_hook = getattr(cls, SYNC_HOOK, None)
                 if sync_hook is not None:
-                    if adapter not in sync_hooks[sync_hook]:
+                    if not any(adapter is seen for seen in sync_hooks[sync_hook]):
                         sync_hooks[sync_hook].append(adapter)
                 async_hook = getattr(cls, ASYNC_HOOK, None)
                 if async_hook is not None:
-                    if adapter not in async_hooks[async_hook]:
+                    if not any(adapter is seen for seen in async_hooks[async_hook]):
                         async_hooks[async_hook].append(adapter)
         return (
             {hook: adapters for hook, adapters in sync_hooks.items()},
-- 
2.43.0


From 6a9f7d03ce0de141feb11118e5c777345f29b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 20/99] fix: materialize reports its own error when it fails
 before execution starts

---
 hamilton/driver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 69c4fdc..1f975da 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1646,6 +1646,7 @@ class Driver:
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
+        graph_execution_started = False
         try:
             materializer_factories, extractor_factories = self._process_materializers(materializers)
             if len(materializer_factories) == len(final_vars) == 0:
@@ -1669,6 +1670,7 @@ class Driver:
             # Note we will not run the loaders if they're not upstream of the
             # materializers or additional_vars
             materializer_vars = [m.id for m in materializer_factories]
+            graph_execution_started = True
             if self.adapter.does_hook("pre_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "pre_graph_execute",
@@ -1702,7 +1704,9 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            if graph_execution_started and self.adapter.does_hook(
+                "post_graph_execute", is_async=False
+            ):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From 9212ba527eaddcea464f91791ab84d860c2c9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:42 +0000
Subject: [PATCH 21/99] fix: an input that cannot be printed does not hide the
 node's error

---
 hamilton/execution/graph_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index 908f465..56e5d57 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -108,7 +108,12 @@ def create_input_string(kwargs: dict) -> str:
     pp = pprint.PrettyPrinter(width=80)
     inputs = {}
     for k, v in kwargs.items():
-        item_repr = repr(v)
+        try:
+            item_repr = repr(v)
+        except Exception:
+            # never let the error message hide the error
+            inputs[k] = f"<unprintable {type(v).__name__} object>"
+            continue
         if len(item_repr) > 50:
             item_repr = item_repr[:50] + "..."
         else:
-- 
2.43.0


From 0169da8125488a2e66d5f5b1a6a5fb780c0715c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 22/99] fix: GracefulErrorAdapter recognises a sentinel that
 does not equal itself

---
 hamilton/lifecycle/default.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 44ec7a5..4240ec9 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -730,6 +730,8 @@ class GracefulErrorAdapter(NodeExecutionMethod):
 
         if not can_inject:
             for _key, value in node_kwargs.items():
+                if value is self.sentinel_value:  # covers sentinels that do not equal themselves, e.g. NaN
+                    return default_return
                 if type(self.sentinel_value) is type(value):
                     if self.sentinel_value == value:  # == versus is
                         return default_return
-- 
2.43.0


From c06dbab3753ff60818a62415b752b51aa98eda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:33 +0000
Subject: [PATCH 23/99] fix: default values of a node's inputs follow their
 inputs when these are renamed

---
 hamilton/function_modifiers/expanders.py | 10 +++++++++
 hamilton/node.py                         | 28 +++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index e810ece..5a8bc2d 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -277,6 +277,16 @@ class parameterize(base.NodeExpander):
                         **{parameter: val.value for parameter, val in literal_dependencies.items()},
                     ),
                     input_types=new_input_types,
+                    optional_values=node_.rename_default_values(
+                        {
+                            param: upstream_dependencies[param].source
+                            if param in upstream_dependencies
+                            else param
+                            for param in node_.input_types
+                            if param not in literal_dependencies
+                            and param not in grouped_dependencies
+                        }
+                    ),
                     include_refs=False,  # Include refs is here as this is earlier than compile time
                     # TODO -- figure out why this isn't getting replaced later...
                 )
diff --git a/hamilton/node.py b/hamilton/node.py
index 3e136b7..76022c2 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -326,6 +326,13 @@ class Node(object):
             else {},
         )
         constructor_args.update(**overrides)
+        if "input_types" in overrides and "optional_values" not in overrides:
+            # a default is only meaningful for an input the copy still has
+            constructor_args["optional_values"] = {
+                name: value
+                for name, value in constructor_args["optional_values"].items()
+                if name in constructor_args["input_types"]
+            }
         out = Node(**constructor_args)
         if include_refs:
             out._dependencies = self._dependencies
@@ -382,9 +389,28 @@ class Node(object):
             input_names.get(k, k): v for k, v in self.input_types.items() if k not in input_values
         }
         # out = self.copy_with(callabl=new_callable, input_types=new_input_types)
-        out = self.copy_with(callabl=fn_to_use, input_types=new_input_types)
+        out = self.copy_with(
+            callabl=fn_to_use,
+            input_types=new_input_types,
+            optional_values=self.rename_default_values(
+                {k: input_names.get(k, k) for k in self.input_types if k not in input_values}
+            ),
+        )
         return out
 
+    def rename_default_values(self, new_names: Dict[str, str]) -> Dict[str, Any]:
+        """Gives the default values of this node's inputs under new names.
+
+        :param new_names: The new name of each input that is kept.
+        :return: The defaults by new name. Inputs that end up sharing a name have no single default.
+        """
+        names = list(new_names.values())
+        return {
+            new_names[k]: v
+            for k, v in self.default_parameter_values.items()
+            if k in new_names and names.count(new_names[k]) == 1
+        }
+
     def transform_output(
         self, __transform: Callable[[Dict[str, Any], Any], Any], __output_type: Type[Any]
     ) -> "Node":
-- 
2.43.0


From be64b0fca5dc1749d6de2452d592823255f82a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:13 +0000
Subject: [PATCH 24/99] fix: the cache tells collected items in a different
 order apart

---
 hamilton/caching/adapter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..b6e0bc8 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1145,8 +1145,8 @@ class HamiltonCacheAdapter(
         Collecting ``data_version`` for upstream dependencies requires handling special cases when
         task-based execution is used:
         - If the current node is ``COLLECT`` , the dependency annotated with ``Collect[]`` needs to
-        be versioned item by item instead of versioning the full container. This is because the
-        collect order is inconsistent.
+        be versioned item by item instead of versioning the full container. Items are collected in
+        the order in which they were expanded, and a collecting function can depend on that order.
         - If the current node is ``INSIDE`` and the dependency is ``EXPAND``, this means the
         ``kwargs`` dictionary contains a single item. We need to version this individual item because
         it will not be available from "inside" the branch for some executors (multiprocessing, multithreading)
@@ -1196,7 +1196,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From 3b93068e85e238307da62b7de056f8bb204093e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:13 +0000
Subject: [PATCH 25/99] fix: caching works when a task depends on a node of a
 task with several nodes

---
 hamilton/caching/adapter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index b6e0bc8..2369cf0 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1210,7 +1210,10 @@ class HamiltonCacheAdapter(
                 if tasks_data_versions is SENTINEL:
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
-                    dep_data_version = tasks_data_versions.get(task_id)
+                    # the dependency could have been computed by another task
+                    dep_data_version = tasks_data_versions.get(task_id, SENTINEL)
+                    if dep_data_version is SENTINEL:
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From 9a8402e608fd569ea21cf23b596b7fce5b7b6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:13 +0000
Subject: [PATCH 26/99] fix: caching keeps a loaded value that is a tuple

---
 hamilton/caching/adapter.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 2369cf0..b0d9cdc 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1271,13 +1271,6 @@ class HamiltonCacheAdapter(
             ):
                 cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
 
-                # nodes collected in `._data_loaders` return tuples of (result, metadata)
-                # where metadata often includes a timestamp. To ensure we provide a consistent
-                # `data_version` / hash, we only hash the result part of the materializer return
-                # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                    result = result[0]
-
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
@@ -1358,13 +1351,6 @@ class HamiltonCacheAdapter(
                 task_id=task_id,
             )
 
-            # nodes collected in `._data_loaders` return tuples of (result, metadata)
-            # where metadata often includes a timestamp. To ensure we provide a consistent
-            # `data_version` / hash, we only hash the result part of the materializer return
-            # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                result = result[0]
-
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
             # nodes collected in `._data_savers` return a dictionary of metadata
-- 
2.43.0


From a4c512183f57318e1c36f0551522dc1bd1ca91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:38 +0000
Subject: [PATCH 27/99] fix: results of nodes with caching behavior IGNORE are
 not stored

---
 hamilton/caching/adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index b0d9cdc..89cc670 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1404,7 +1404,6 @@ class HamiltonCacheAdapter(
         if self.behaviors[run_id][node_name] in (
             CachingBehavior.DEFAULT,
             CachingBehavior.RECOMPUTE,
-            CachingBehavior.IGNORE,
         ):
             cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
             data_version = self.get_data_version(
-- 
2.43.0


From 19e7fd72922e3c5b521586af5ff93d33d450ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:38 +0000
Subject: [PATCH 28/99] fix: the cache does not return the metadata of saving
 other data

---
 hamilton/caching/adapter.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 89cc670..1bddbf3 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -802,6 +802,14 @@ class HamiltonCacheAdapter(
 
         return data_version
 
+    @staticmethod
+    def _version_saver_metadata(node_name: str, cache_key: str) -> str:
+        """Create a data version for the metadata returned by a `DataSaver`.
+
+        It is the same each time the same data is saved, and another one for other data.
+        """
+        return f"{node_name}__metadata_{fingerprinting.hash_value(cache_key)}"
+
     def version_data(self, result: Any, run_id: str = None) -> str:
         """Create a unique data version for the result
 
@@ -1275,10 +1283,9 @@ class HamiltonCacheAdapter(
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
                 # this metadata often includes a timestamp, leading to an unstable hash.
-                # we do not version nor store the metadata. This node is executed for its
-                # external effect of saving a file
+                # we version what was saved rather than the metadata.
                 if node_name in self._data_savers[run_id]:
-                    data_version = f"{node_name}__metadata"
+                    data_version = self._version_saver_metadata(node_name, cache_key)
 
                 self._set_memory_metadata(
                     run_id=run_id, node_name=node_name, task_id=task_id, data_version=data_version
@@ -1355,10 +1362,9 @@ class HamiltonCacheAdapter(
 
             # nodes collected in `._data_savers` return a dictionary of metadata
             # this metadata often includes a timestamp, leading to an unstable hash.
-            # we do not version nor store the metadata. This node is executed for its
-            # external effect of saving a file
+            # we version what was saved rather than the metadata.
             if node_name in self._data_savers[run_id]:
-                data_version = f"{node_name}__metadata"
+                data_version = self._version_saver_metadata(node_name, cache_key)
 
             self._set_memory_metadata(
                 run_id=run_id, node_name=node_name, task_id=task_id, data_version=data_version
-- 
2.43.0


From 69a9387d855f51cf8b110138e80b3425862e3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:39 +0000
Subject: [PATCH 29/99] fix: SQLiteMetadataStore.set replaces the data version
 of a known cache key

---
 hamilton/caching/stores/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..089cc9b 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,7 +147,7 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT OR REPLACE INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
             """,
-- 
2.43.0


From c62b8f9f8f20cd1e392cceb05a94be5f407455de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:39 +0000
Subject: [PATCH 30/99] fix: SQLiteMetadataStore remains usable after
 delete_all

---
 hamilton/caching/stores/sqlite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 089cc9b..d2ea9c0 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -182,13 +182,15 @@ class SQLiteMetadataStore(MetadataStore):
         self.connection.commit()
 
     def delete_all(self) -> None:
-        """Delete all existing tables from the database"""
+        """Delete all stored metadata."""
         cur = self.connection.cursor()
 
         for table_name in ["run_ids", "history", "cache_metadata"]:
             cur.execute(f"DROP TABLE IF EXISTS {table_name};")
 
         self.connection.commit()
+        # the store must remain usable
+        self._create_tables_if_not_exists()
 
     def exists(self, cache_key: str) -> bool:
         """boolean check if a ``data_version`` is found for ``cache_key``
-- 
2.43.0


From a8a7a10de49f69684bb07b9e569c3b284b149699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:39 +0000
Subject: [PATCH 31/99] fix: deleting what an in-memory cache store does not
 have is not an error

---
 hamilton/caching/stores/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..800efb4 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -48,7 +48,7 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def delete(self, cache_key: str) -> None:
         """Delete the ``data_version`` for ``cache_key``."""
-        del self._data_versions[cache_key]
+        self._data_versions.pop(cache_key, None)
 
     @override
     def delete_all(self) -> None:
@@ -187,7 +187,7 @@ class InMemoryResultStore(ResultStore):
 
     @override
     def delete(self, data_version: str) -> None:
-        del self._results[data_version]
+        self._results.pop(data_version, None)
 
     @override
     def delete_all(self) -> None:
-- 
2.43.0


From f0884c1711af0fd6101e88055ca50bdc48f3aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:07 +0000
Subject: [PATCH 32/99] fix: InMemoryMetadataStore can list and persist runs
 after deletions

---
 hamilton/caching/stores/memory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 800efb4..8052c7a 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -90,7 +90,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
-                data_version = self._data_versions[cache_key]
+                data_version = self._data_versions.get(cache_key, None)
+                if data_version is None:  # deleted since
+                    continue
                 metadata_store.set(
                     cache_key=cache_key,
                     data_version=data_version,
@@ -150,6 +152,8 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
+            if cache_key not in self._data_versions:  # deleted since
+                continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
-- 
2.43.0


From 1353b45d2db6782baf623b5ce0743a2bdb7d12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:07 +0000
Subject: [PATCH 33/99] fix: InMemoryMetadataStore.delete_all forgets the runs
 too

---
 hamilton/caching/stores/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 8052c7a..fd6cdf6 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -54,6 +54,8 @@ class InMemoryMetadataStore(MetadataStore):
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
-- 
2.43.0


From 18cb611c283ce44f5bd6b3bab5302a766c024685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:08 +0000
Subject: [PATCH 34/99] fix: InMemoryResultStore.load_from does not invent
 results

---
 hamilton/caching/stores/memory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index fd6cdf6..488cc5d 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -277,8 +277,10 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
-            # TODO disambiguate "result is None" from the sentinel value when `data_version`
+            # otherwise, "result is None" would be stored for a `data_version` that
             # is not found in `result_store`.
+            if not result_store.exists(data_version):
+                continue
             result = result_store.get(data_version)
             in_memory_result_store.set(data_version, result)
 
-- 
2.43.0


From f36614c6ba3193a28d2ed097494d8174d5653a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:08 +0000
Subject: [PATCH 35/99] fix: FileResultStore writes results atomically

---
 hamilton/caching/stores/file.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..7b3c967 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -1,5 +1,7 @@
 import inspect
+import os
 import shutil
+import uuid
 from pathlib import Path
 from typing import Any, Optional
 
@@ -29,7 +31,16 @@ class FileResultStore(ResultStore):
 
     @staticmethod
     def _write_result(file_path: Path, stored_result: StoredResult) -> None:
-        file_path.write_bytes(stored_result.save())
+        data = stored_result.save()
+        # write the full result elsewhere first: an interrupted write must not leave
+        # a result that exists but can't be read
+        temporary_path = file_path.with_name(f".{file_path.name}.{uuid.uuid4().hex}.tmp")
+        try:
+            temporary_path.write_bytes(data)
+            os.replace(temporary_path, file_path)
+        except BaseException:
+            temporary_path.unlink(missing_ok=True)
+            raise
 
     @staticmethod
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
-- 
2.43.0


From 101bd4772b62e1c9b278adc515fad4613a47d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:08 +0000
Subject: [PATCH 36/99] fix: a cached result that cannot be loaded is computed
 again

---
 hamilton/caching/stores/file.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 7b3c967..356579c 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -12,7 +12,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -110,10 +110,17 @@ class FileResultStore(ResultStore):
     @override
     def get(self, data_version: str) -> Optional[Any]:
         result_path = self._path_from_data_version(data_version)
-        stored_result = self._load_result_from_path(result_path)
+        if not result_path.exists():
+            return None
+
+        try:
+            stored_result = self._load_result_from_path(result_path)
+        except Exception as e:
+            raise ResultRetrievalError(f"Failed to load the result {result_path}") from e
 
         if stored_result is None:
-            return None
+            # the result exists but what it refers to was not found, e.g., a materialized file
+            raise ResultRetrievalError(f"Failed to load the result {result_path}")
 
         return stored_result.value
 
-- 
2.43.0


From 9af281a1a2b3bb913e70acd44b2ffe8f94e95bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:15 +0000
Subject: [PATCH 37/99] fix: FileResultStore.delete_all leaves the metadata
 store alone

---
 hamilton/caching/stores/file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 356579c..4f105f9 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -131,8 +131,14 @@ class FileResultStore(ResultStore):
 
     @override
     def delete_all(self) -> None:
-        shutil.rmtree(self.path)
-        self.path.mkdir(exist_ok=True)
+        for path in self.path.iterdir():
+            # by default, the metadata store is located in the same directory
+            if path.name.startswith("metadata_store.db"):
+                continue
+            if path.is_dir():
+                shutil.rmtree(path)
+            else:
+                path.unlink()
 
     def delete_expired(self) -> None:
         for file_path in self.path.iterdir():
-- 
2.43.0


From b5d4bf638a41b2bef0a6e14014ee0d1478316db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 38/99] fix: cache keys of nodes with different names differ

---
 hamilton/caching/cache_key.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/cache_key.py b/hamilton/caching/cache_key.py
index dbd14d7..d40955c 100644
--- a/hamilton/caching/cache_key.py
+++ b/hamilton/caching/cache_key.py
@@ -1,6 +1,7 @@
 import base64
 import zlib
 from typing import Dict, Mapping
+from urllib.parse import quote, unquote
 
 
 def _compress_string(string: str) -> str:
@@ -34,7 +35,7 @@ def decode_key(cache_key: str) -> dict:
     else:
         dependencies_data_versions = _decode_str_dict(data_stringified)
     return dict(
-        node_name=node_name,
+        node_name=unquote(node_name),
         code_version=code_version,
         dependencies_data_versions=dependencies_data_versions,
     )
@@ -48,6 +49,7 @@ def create_cache_key(
     else:
         dependencies_stringified = "<none>"
 
-    safe_node_name = "".join(c for c in node_name if c.isalnum() or c in ("_",)).rstrip()
+    # "-" separates the parts of the key
+    safe_node_name = quote(node_name, safe="").replace("-", "%2D")
 
     return f"{safe_node_name}-{code_version}-{_compress_string(dependencies_stringified)}"
-- 
2.43.0


From 3f6f82786f39381c88d80853bb61040edb386623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 39/99] fix: cache keys of nodes with different dependencies
 differ

---
 hamilton/caching/cache_key.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/cache_key.py b/hamilton/caching/cache_key.py
index d40955c..c840340 100644
--- a/hamilton/caching/cache_key.py
+++ b/hamilton/caching/cache_key.py
@@ -13,15 +13,16 @@ def _decompress_string(string: str) -> str:
 
 
 def _encode_str_dict(d: Mapping) -> str:
+    # names and versions can contain any character
     interleaved_tuple = tuple(item for pair in sorted(d.items()) for item in pair)
-    return ",".join(interleaved_tuple)
+    return ",".join(quote(item, safe="<>=") for item in interleaved_tuple)
 
 
 def _decode_str_dict(s: str) -> Mapping:
     interleaved_tuple = tuple(s.split(","))
     d = {}
     for i in range(0, len(interleaved_tuple), 2):
-        d[interleaved_tuple[i]] = interleaved_tuple[i + 1]
+        d[unquote(interleaved_tuple[i])] = unquote(interleaved_tuple[i + 1])
     return d
 
 
-- 
2.43.0


From 1a31e2a4b47e6db3fb990721ce4151752db6604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:06 +0000
Subject: [PATCH 40/99] fix: caching executes nodes whose code version is
 unknown, such as materializers

---
 hamilton/caching/adapter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 1bddbf3..e6bfc06 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1232,10 +1232,16 @@ class HamiltonCacheAdapter(
 
             dependencies_data_versions[dep_name] = dep_data_version
 
+        code_version = self.code_versions[run_id][node_name]
+        if code_version is None:
+            # nothing tells whether this is the code of previous executions (e.g., the node of a
+            # materializer, which can have another path). A random value forces to recompute.
+            code_version = f"<unknown>_{uuid.uuid4().hex}"
+
         # create cache_key before execution; will be reused during and after execution
         cache_key = create_cache_key(
             node_name=node_name,
-            code_version=self.code_versions[run_id][node_name],
+            code_version=code_version,
             dependencies_data_versions=dependencies_data_versions,
         )
         self._set_cache_key(
-- 
2.43.0


From a0aaa14eb66acd55981425c939fe5bfa47606491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:00 +0000
Subject: [PATCH 41/99] fix: containers that differ by an unhashable element do
 not share a fingerprint

---
 hamilton/caching/fingerprinting.py | 37 ++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ee5ea96..8be25ab 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -60,6 +60,15 @@ def _compact_hash(digest: bytes) -> str:
     return base64.urlsafe_b64encode(digest).decode()
 
 
+def _is_unhashable(hash_: str, *, skip_unhashable: bool = False, **kwargs) -> bool:
+    """A container is unhashable if one of its elements is. Otherwise, containers that
+    only differ by such an element would have the same hash.
+
+    The exception is when hashing the attributes of an object (`skip_unhashable`).
+    """
+    return hash_ == UNHASHABLE and not skip_unhashable
+
+
 @functools.singledispatch
 def hash_value(obj, *args, depth=0, **kwargs) -> str:
     """Fingerprinting strategy that computes a hash of the
@@ -76,7 +85,8 @@ def hash_value(obj, *args, depth=0, **kwargs) -> str:
     # for a hash in the default case.
     # Objects that return an empty dict should be skipped (very odd behavior, happens with pandas type)
     if getattr(obj, "__dict__", {}) != {}:
-        return hash_value(obj.__dict__, depth=depth + 1)
+        # the attributes that can be fingerprinted identify the object
+        return hash_value(obj.__dict__, depth=depth + 1, skip_unhashable=True)
 
     # check if the object comes from a module part of the standard library
     # if it's the case, hash it's __repr__(), which is a string representation of the object
@@ -148,7 +158,10 @@ def hash_sequence(obj, *args, depth: int = 0, **kwargs) -> str:
     """
     hash_object = hashlib.sha224()
     for elem in obj:
-        hash_object.update(hash_value(elem, depth=depth + 1).encode())
+        elem_hash = hash_value(elem, depth=depth + 1, **kwargs)
+        if _is_unhashable(elem_hash, **kwargs):
+            return UNHASHABLE
+        hash_object.update(elem_hash.encode())
 
     return _compact_hash(hash_object.digest())
 
@@ -168,7 +181,11 @@ def hash_unordered_mapping(obj, *args, depth: int = 0, **kwargs) -> str:
 
     hashed_mapping: Dict[str, str] = {}
     for key, value in obj.items():
-        hashed_mapping[hash_value(key, depth=depth + 1)] = hash_value(value, depth=depth + 1)
+        key_hash = hash_value(key, depth=depth + 1, **kwargs)
+        value_hash = hash_value(value, depth=depth + 1, **kwargs)
+        if _is_unhashable(key_hash, **kwargs) or _is_unhashable(value_hash, **kwargs):
+            return UNHASHABLE
+        hashed_mapping[key_hash] = value_hash
 
     hash_object = hashlib.sha224()
     for key, value in sorted(hashed_mapping.items()):
@@ -199,12 +216,16 @@ def hash_mapping(obj, *, ignore_order: bool = True, depth: int = 0, **kwargs) ->
     """
     if ignore_order:
         # use the same depth because we're simply dispatching to another implementation
-        return hash_unordered_mapping(obj, depth=depth)
+        return hash_unordered_mapping(obj, depth=depth, **kwargs)
 
     hash_object = hashlib.sha224()
     for key, value in obj.items():
-        hash_object.update(hash_value(key, depth=depth + 1).encode())
-        hash_object.update(hash_value(value, depth=depth + 1).encode())
+        key_hash = hash_value(key, depth=depth + 1, **kwargs)
+        value_hash = hash_value(value, depth=depth + 1, **kwargs)
+        if _is_unhashable(key_hash, **kwargs) or _is_unhashable(value_hash, **kwargs):
+            return UNHASHABLE
+        hash_object.update(key_hash.encode())
+        hash_object.update(value_hash.encode())
 
     return _compact_hash(hash_object.digest())
 
@@ -217,7 +238,9 @@ def hash_set(obj, *args, depth: int = 0, **kwargs) -> str:
     For the same objects in the set, the hashes will be the
     same.
     """
-    hashes = [hash_value(elem, depth=depth + 1) for elem in obj]
+    hashes = [hash_value(elem, depth=depth + 1, **kwargs) for elem in obj]
+    if any(_is_unhashable(elem_hash, **kwargs) for elem_hash in hashes):
+        return UNHASHABLE
     sorted_hashes = sorted(hashes)
 
     hash_object = hashlib.sha224()
-- 
2.43.0


From 98c7583fdef20c3e0cebb7a38241b456bc53ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:00 +0000
Subject: [PATCH 42/99] fix: the fingerprint of pandas objects covers all rows
 that share an index

---
 hamilton/caching/fingerprinting.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index 8be25ab..a1ecdd8 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -254,16 +254,18 @@ def hash_set(obj, *args, depth: int = 0, **kwargs) -> str:
 @hash_value.register(h_databackends.AbstractPandasColumn)
 def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     """Convert a pandas dataframe, series, or index to
-    a dictionary of {index: row_hash} then hash it.
-
-    Given the hashing for mappings, the physical ordering or rows doesn't matter.
-    For example, if the index is a date, the hash will represent the {date: row_hash},
-    and won't preserve how dates were ordered in the DataFrame.
+    pairs of (index, row_hash) then hash them.
     """
     from pandas.util import hash_pandas_object
 
     hash_per_row = hash_pandas_object(obj)
-    return hash_mapping(hash_per_row.to_dict(), ignore_order=False, depth=depth + 1)
+    # not a dictionary, because several rows can have the same index
+    hash_object = hashlib.sha224()
+    for index, row_hash in hash_per_row.items():
+        hash_object.update(hash_value(index, depth=depth + 2).encode())
+        hash_object.update(hash_value(row_hash, depth=depth + 2).encode())
+
+    return _compact_hash(hash_object.digest())
 
 
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
-- 
2.43.0


From 974ca1f6a8e247b31d022fe8e647cc1feb1556ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 43/99] fix: the fingerprint of dataframes covers column names
 and types

---
 hamilton/caching/fingerprinting.py | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index a1ecdd8..ec8274c 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -250,8 +250,6 @@ def hash_set(obj, *args, depth: int = 0, **kwargs) -> str:
     return _compact_hash(hash_object.digest())
 
 
-@hash_value.register(h_databackends.AbstractPandasDataFrame)
-@hash_value.register(h_databackends.AbstractPandasColumn)
 def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     """Convert a pandas dataframe, series, or index to
     pairs of (index, row_hash) then hash them.
@@ -268,13 +266,39 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     return _compact_hash(hash_object.digest())
 
 
+@hash_value.register(h_databackends.AbstractPandasDataFrame)
+@hash_value.register(h_databackends.AbstractPandasColumn)
+def hash_labelled_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
+    """Hash the rows together with the names and types of the columns and index, which
+    the hashes of rows ignore.
+    """
+    try:
+        rows_hash = hash_pandas_obj(obj, depth=depth)
+    except TypeError:
+        # some values (e.g., lists) can't be hashed by pandas
+        return UNHASHABLE
+
+    columns = [(obj.name, obj.dtype)] if obj.ndim == 1 else list(obj.dtypes.items())
+    return hash_sequence(
+        [
+            rows_hash,
+            type(obj).__name__,
+            [repr(name) for name in obj.index.names],
+            str(obj.index.dtype),
+            [f"{name!r}: {dtype}" for name, dtype in columns],
+        ],
+        depth=depth,
+    )
+
+
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
 def hash_polars_dataframe(obj, *args, depth: int = 0, **kwargs) -> str:
     """Convert a polars dataframe, series, or index to
-    a list of hashes then hash it.
+    a list of hashes then hash it together with the names and types of the columns.
     """
     hash_per_row = obj.hash_rows()
-    return hash_sequence(hash_per_row.to_list(), depth=depth + 1)
+    columns = [f"{name}: {dtype}" for name, dtype in zip(obj.columns, obj.dtypes)]
+    return hash_sequence([hash_per_row.to_list(), columns], depth=depth + 1)
 
 
 @hash_value.register(h_databackends.AbstractPolarsColumn)
-- 
2.43.0


From 4cf183759d2b7d1332cfcb5c03e9093dc980872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 44/99] fix: the fingerprint of a numpy array of objects
 depends on the objects, not on where they are

---
 hamilton/caching/fingerprinting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ec8274c..a100fe4 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -316,5 +316,9 @@ def hash_numpy_array(obj, *args, depth: int = 0, **kwargs) -> str:
     the same underlying array representation (e.g., masked arrays).
     Unsure, but it's an area to investigate.
     """
+    if obj.dtype.hasobject:
+        # the raw data are addresses
+        return hash_value(obj.tolist(), depth=depth, **kwargs)
+
     # use the same depth because we're simply dispatching to another implementation
     return hash_bytes(obj.tobytes(), depth=depth)
-- 
2.43.0


From e5830ab3642df33631f34a85804a546d2ebf8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:08 +0000
Subject: [PATCH 45/99] fix: @cache(format=...) works with result stores that
 don't write files

---
 hamilton/caching/adapter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index e6bfc06..6dd76e9 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1435,8 +1435,13 @@ class HamiltonCacheAdapter(
                 saver_cls, loader_cls = search_data_adapter_registry(
                     name=cache_format, type_=type(result)
                 )  # type: ignore
-                materialized_path = self.result_store._materialized_path(data_version, saver_cls)
-                materialized_path_missing = not materialized_path.exists()
+                # only stores writing files materialize results (e.g., not the in-memory store)
+                materialized_path_missing = False
+                if hasattr(self.result_store, "_materialized_path"):
+                    materialized_path = self.result_store._materialized_path(
+                        data_version, saver_cls
+                    )
+                    materialized_path_missing = not materialized_path.exists()
             else:
                 saver_cls, loader_cls = None, None
                 materialized_path_missing = False
-- 
2.43.0


From 97114309b2c567f24ea6456a48d03f9a6078646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:33 +0000
Subject: [PATCH 46/99] fix: default_loader_behavior and default_behavior apply
 to the nodes of @load_from

---
 hamilton/caching/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 6dd76e9..94a9e0d 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -989,7 +989,7 @@ class HamiltonCacheAdapter(
                         disable=_disable,
                         recompute=_recompute,
                         ignore=_ignore,
-                        default_behavior=default_loader_behavior,
+                        default_loader_behavior=default_loader_behavior,
                     )
 
                 self._data_loaders[run_id].append(main_node)
-- 
2.43.0


From 6feddff167d14a72b55b1f8b5fcde87091683b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 47/99] fix: InMemoryMetadataStore can list and persist runs
 with ignored nodes

---
 hamilton/caching/stores/memory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 488cc5d..1f90089 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -93,7 +93,8 @@ class InMemoryMetadataStore(MetadataStore):
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
                 data_version = self._data_versions.get(cache_key, None)
-                if data_version is None:  # deleted since
+                # deleted since, or not cached (``CachingBehavior.IGNORE`` has no cache key)
+                if data_version is None or cache_key is None:
                     continue
                 metadata_store.set(
                     cache_key=cache_key,
@@ -154,7 +155,8 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
-            if cache_key not in self._data_versions:  # deleted since
+            # deleted since, or not cached (``CachingBehavior.IGNORE`` has no cache key)
+            if cache_key not in self._data_versions or cache_key is None:
                 continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
-- 
2.43.0


From c71271fa9ddcaa1349ff9c68ccab5b4a8b2f8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:12 +0000
Subject: [PATCH 48/99] fix: validate_execution accepts functions and Variables
 as final_vars

---
 hamilton/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 1f975da..4f0afde 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1812,6 +1812,7 @@ class Driver:
         """
         if inputs is None:
             inputs = {}
+        final_vars = self._create_final_vars(final_vars)
         nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
-- 
2.43.0


From ca4e6a114b2b5e929f3b82d1b715c69d79c25b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:23 +0000
Subject: [PATCH 49/99] fix: the type hints of the polars json and database
 adapters can be resolved

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index ee71bb0..54380d9 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -23,7 +23,6 @@ except ImportError:
     Workbook = Type
 
 import polars as pl
-from polars._typing import ConnectionOrCursor
 
 # for polars <0.16.0 we need to determine whether type_aliases exist.
 has_alias = False
@@ -38,7 +37,7 @@ if hasattr(polars.selectors, "_selector_proxy_"):
     from polars.selectors import _selector_proxy_  # noqa
 
 # for polars 0.18.0 we need to check what to do.
-from polars._typing import CsvEncoding, SchemaDefinition
+from polars._typing import CsvEncoding
 
 CsvQuoteStyle = Type
 
@@ -491,8 +490,8 @@ class PolarsJSONReader(DataLoader):
     """
 
     source: Union[str, Path, IOBase, bytes]
-    schema: SchemaDefinition = None
-    schema_overrides: SchemaDefinition = None
+    schema: Union[Mapping[str, Any], Sequence[Any]] = None
+    schema_overrides: Union[Mapping[str, Any], Sequence[Any]] = None
 
     @classmethod
     def applicable_types(cls) -> Collection[Type]:
@@ -707,7 +706,7 @@ class PolarsDatabaseReader(DataLoader):
     """
 
     query: str
-    connection: Union[ConnectionOrCursor, str]
+    connection: Any  # a connection, cursor or connection string
     # kwargs:
     iter_batches: bool = False
     batch_size: Union[int, None] = None
@@ -754,7 +753,7 @@ class PolarsDatabaseWriter(DataSaver):
     """
 
     table_name: str
-    connection: Union[ConnectionOrCursor, str]
+    connection: Any  # a connection, cursor or connection string
     if_table_exists: Literal["fail", "replace", "append"] = "fail"
     engine: Literal["auto", "sqlalchemy", "adbc"] = "sqlalchemy"
 
-- 
2.43.0


From 2f124f213f31e4637925068f5ee656ee0944344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 50/99] fix: PolarsParquetWriter passes each option on whatever
 the compression is

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index 54380d9..5bba8de 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -308,15 +308,15 @@ class PolarsParquetWriter(DataSaver):
         kwargs = {}
         if self.compression is not None:
             kwargs["compression"] = self.compression
-        if self.compression is not None:
+        if self.compression_level is not None:
             kwargs["compression_level"] = self.compression_level
-        if self.compression is not None:
+        if self.statistics is not None:
             kwargs["statistics"] = self.statistics
-        if self.compression is not None:
+        if self.row_group_size is not None:
             kwargs["row_group_size"] = self.row_group_size
-        if self.compression is not None:
+        if self.use_pyarrow is not None:
             kwargs["use_pyarrow"] = self.use_pyarrow
-        if self.compression is not None:
+        if self.pyarrow_options is not None:
             kwargs["pyarrow_options"] = self.pyarrow_options
         return kwargs
 
-- 
2.43.0


From 19a102e9e314217adfe8193de6c795529793597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:52 +0000
Subject: [PATCH 51/99] fix: pandas adapters honour skipfooter, decimal,
 header=None, compression=None and date_format

---
 hamilton/plugins/pandas_extensions.py | 44 ++++++++++++---------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index e212e5d..44184b9 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -158,8 +158,7 @@ class PandasCSVReader(DataLoader):
             kwargs["sep"] = self.sep
         if self.delimiter is not None:
             kwargs["delimiter"] = self.delimiter
-        if self.header is not None:
-            kwargs["header"] = self.header
+        kwargs["header"] = self.header
         if self.names is not None:
             kwargs["names"] = self.names
         if self.index_col is not None:
@@ -180,6 +179,8 @@ class PandasCSVReader(DataLoader):
             kwargs["skipinitialspace"] = self.skipinitialspace
         if self.skiprows is not None:
             kwargs["skiprows"] = self.skiprows
+        if self.skipfooter is not None:
+            kwargs["skipfooter"] = self.skipfooter
         if self.nrows is not None:
             kwargs["nrows"] = self.nrows
         if self.na_values is not None:
@@ -206,10 +207,11 @@ class PandasCSVReader(DataLoader):
             kwargs["iterator"] = self.iterator
         if self.chunksize is not None:
             kwargs["chunksize"] = self.chunksize
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.thousands is not None:
             kwargs["thousands"] = self.thousands
+        if self.decimal is not None:
+            kwargs["decimal"] = self.decimal
         if self.lineterminator is not None:
             kwargs["lineterminator"] = self.lineterminator
         if self.quotechar is not None:
@@ -311,8 +313,7 @@ class PandasCSVWriter(DataSaver):
             kwargs["mode"] = self.mode
         if self.encoding is not None:
             kwargs["encoding"] = self.encoding
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.quoting is not None:
             kwargs["quoting"] = self.quoting
         if self.quotechar is not None:
@@ -419,8 +420,7 @@ class PandasParquetWriter(DataSaver):
         kwargs = {}
         if self.engine is not None:
             kwargs["engine"] = self.engine
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.index is not None:
             kwargs["index"] = self.index
         if self.partition_cols is not None:
@@ -462,8 +462,7 @@ class PandasPickleReader(DataLoader):
     def _get_loading_kwargs(self) -> Dict[str, Any]:
         # Puts kwargs in a dict
         kwargs = {}
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         return kwargs
@@ -514,8 +513,7 @@ class PandasPickleWriter(DataSaver):
     def _get_saving_kwargs(self) -> Dict[str, Any]:
         # Puts kwargs in a dict
         kwargs = {}
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.protocol is not None:
             kwargs["protocol"] = self.protocol
         if self.storage_options is not None:
@@ -570,8 +568,7 @@ class PandasJsonReader(DataLoader):
         kwargs = {}
         if self.chunksize is not None:
             kwargs["chunksize"] = self.chunksize
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.convert_axes is not None:
             kwargs["convert_axes"] = self.convert_axes
         if self.convert_dates is not None:
@@ -646,8 +643,7 @@ class PandasJsonWriter(DataSaver):
 
     def _get_saving_kwargs(self):
         kwargs = {}
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.date_format is not None:
             kwargs["date_format"] = self.date_format
         if self.date_unit is not None:
@@ -856,8 +852,7 @@ class PandasXmlReader(DataLoader):
             kwargs["stylesheet"] = self.stylesheet
         if self.iterparse is not None:
             kwargs["iterparse"] = self.iterparse
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         if pd.__version__ >= "2.0" and self.dtype_backend is not None:
@@ -933,8 +928,7 @@ class PandasXmlWriter(DataSaver):
             kwargs["parser"] = self.parser
         if self.stylesheet is not None:
             kwargs["stylesheet"] = self.stylesheet
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         return kwargs
@@ -1167,8 +1161,7 @@ class PandasStataReader(DataLoader):
             kwargs["chunksize"] = self.chunksize
         if self.iterator is not None:
             kwargs["iterator"] = self.iterator
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
 
@@ -1229,8 +1222,7 @@ class PandasStataWriter(DataSaver):
             kwargs["version"] = self.version
         if self.convert_strl is not None and self.version == 117:
             kwargs["convert_strl"] = self.convert_strl
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         if self.value_labels is not None:
@@ -1626,6 +1618,10 @@ class PandasTableReader(DataLoader):
         # but we send it separately
         del kwargs["filepath_or_buffer"]
 
+        # pandas refuses date_format next to any date_parser, even None
+        if self.date_parser is None:
+            del kwargs["date_parser"]
+
         return kwargs
 
     def load_data(self, type_: Type) -> Tuple[DATAFRAME_TYPE, Dict[str, Any]]:
-- 
2.43.0


From bd7f4a3f70bb0b28a9d44fb1dba5b946f749e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:06 +0000
Subject: [PATCH 52/99] fix: savers and loaders get their parameters whatever
 the nodes feeding them are called

---
 hamilton/function_modifiers/adapters.py | 66 ++++++++++---------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 2f975f4..b95ca9d 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -181,44 +181,38 @@ class LoadFromDecorator(NodeInjector):
         # dependencies is a map from param name -> source name
         # we use this to pass the right arguments to the loader.
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        # we need to invert the dependencies so that we can pass
-        # the right argument to the loader
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def load_data(
             __loader_factory: AdapterFactory = loader_factory,
             __load_type: Type[Type] = load_type,
             __resolved_kwargs=resolved_kwargs,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __optional_params=loader_cls.get_optional_arguments(),  # noqa: B008
             **input_kwargs: Any,
         ) -> Tuple[load_type, Dict[str, Any]]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            dependency_kwargs = {
+                param: input_kwargs[source]
+                for param, source in __dependencies.items()
+                if source in input_kwargs
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
+            kwargs = {**__resolved_kwargs, **dependency_kwargs}
             data_loader = __loader_factory.create_loader(**kwargs)
             return data_loader.load_data(load_type)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
+        # Only the upstream dependencies are inputs, the resolved kwargs will be filled out later.
+        # One upstream node can feed several parameters: it is required if any of them is.
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in loader_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in loader_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in loader_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in loader_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
 
         # the loader node is the node that loads the data from the data source.
         loader_node = node.Node(
@@ -528,43 +522,37 @@ class SaveToDecorator(SingleNodeNodeTransformer):
 
         adapter_factory = AdapterFactory(saver_cls, **self.kwargs)
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def save_data(
             __adapter_factory=adapter_factory,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __resolved_kwargs=resolved_kwargs,
             __data_node_name=node_to_save,
             **input_kwargs,
         ) -> Dict[str, Any]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            dependency_kwargs = {
+                param: input_kwargs[source]
+                for param, source in __dependencies.items()
+                if source in input_kwargs
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
-            data_to_save = kwargs[__data_node_name]
-            kwargs = {k: v for k, v in kwargs.items() if k != __data_node_name}
+            kwargs = {**__resolved_kwargs, **dependency_kwargs}
             data_saver = __adapter_factory.create_saver(**kwargs)
-            return data_saver.save_data(data_to_save)
-
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
+            return data_saver.save_data(input_kwargs[__data_node_name])
 
+        # Only the upstream dependencies are inputs, the resolved kwargs will be filled out later.
+        # One upstream node can feed several parameters: it is required if any of them is.
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in saver_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in saver_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in saver_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in saver_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
         input_types[node_to_save] = (node_.type, DependencyType.REQUIRED)
         save_node = node.Node(
             name=artifact_name,
-- 
2.43.0


From 411c7117840bddd599cf4830c17f4a0d6c2d6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:06 +0000
Subject: [PATCH 53/99] fix: to.<key> and from_.<key> accept the parameters of
 adapters registered later

---
 hamilton/io/materialization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 2035bb4..83b0ec1 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -406,8 +406,9 @@ def _set_materializer_attrs():
         # Creating a new function with the new signature
         @functools.wraps(fn)
         def wrapper(*args, **kwargs):
-            bound_arguments = new_signature.bind(*args, **kwargs)
-            return fn(*bound_arguments.args, **bound_arguments.kwargs)
+            # new_signature is for documentation: adapters registered later can have more parameters,
+            # and the adapter that gets used validates the parameters it is given
+            return fn(*args, **kwargs)
 
         # Assign the new signature to the wrapper function
         wrapper.__signature__ = new_signature
-- 
2.43.0


From d8a635486b6a72a23abc7d39d087b3bb53261dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:06 +0000
Subject: [PATCH 54/99] fix: two materializers with the same id are an error,
 not a silent loss

---
 hamilton/io/materialization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 83b0ec1..ef536af 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -459,6 +459,10 @@ def modify_graph(
     materializer_nodes = []
     for materializer in materializer_factories:
         materializer_nodes.extend(materializer.generate_nodes(fn_graph))
+    names = [node_.name for node_ in materializer_nodes]
+    duplicates = sorted({name for name in names if names.count(name) > 1})
+    if duplicates:
+        raise ValueError(f"Materializer ids must be unique, these nodes clash: {duplicates}.")
     fn_graph = fn_graph.with_nodes({node_.name: node_ for node_ in materializer_nodes})
     loader_nodes = []
     # We want to treat this as an override
-- 
2.43.0


From 668559b1f05f89ebe824b615253687d2930c9c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 55/99] fix: savers for Any get last priority, like loaders for
 Any

---
 hamilton/function_modifiers/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index b95ca9d..b19d512 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -115,7 +115,7 @@ def resolve_adapter_class(
         # would potentially use the wrong loader for production cases
         if Any in loader_cls.applicable_types():
             loaders_with_any.append(loader_cls)
-        if loader_cls.applies_to(type_):
+        elif loader_cls.applies_to(type_):
             applicable_adapters.append(loader_cls)
     if len(applicable_adapters) > 0:
         if len(applicable_adapters) > 1:
-- 
2.43.0


From b49a7ed12c09a67cfc5b406eaa7e77898e1eca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:40 +0000
Subject: [PATCH 56/99] fix: AsyncDriver builds its result in the order of the
 request

---
 hamilton/async_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 864d126..2455279 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -18,7 +18,7 @@ logger = logging.getLogger(__name__)
 
 async def await_dict_of_tasks(task_dict: Dict[str, typing.Awaitable]) -> Dict[str, Any]:
     """Util to await a dictionary of tasks as asyncio.gather is kind of garbage"""
-    keys = sorted(task_dict.keys())
+    keys = list(task_dict.keys())
     coroutines = [task_dict[key] for key in keys]
     coroutines_gathered = await asyncio.gather(*coroutines)
     return dict(zip(keys, coroutines_gathered))
-- 
2.43.0


From b4f67b450734f18fb3b8f8e07747172891f0bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:40 +0000
Subject: [PATCH 57/99] fix: unpacking a dataframe into the result does not
 silently drop clashing columns

---
 hamilton/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hamilton/base.py b/hamilton/base.py
index 136c0b3..d052731 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -253,11 +253,14 @@ class PandasDataFrameResult(ResultMixin):
                         f"Unpacking dataframe {name} into dict of series with columns {list(output.columns)}."
                     )
 
-                df_dict = {
-                    get_output_name(name, col_name): col_value
-                    for col_name, col_value in output.to_dict(orient="series").items()
-                }
-                flattened_outputs.update(df_dict)
+                for i, col_name in enumerate(output.columns):
+                    flat_name = get_output_name(name, col_name)
+                    if flat_name in flattened_outputs:
+                        raise ValueError(
+                            f"Column {col_name} of dataframe {name} would become {flat_name}, which already exists "
+                            f"in the output. Please rename the column or the other output to avoid this error."
+                        )
+                    flattened_outputs[flat_name] = output.iloc[:, i]
             elif isinstance(output, pd.Series):
                 if name in flattened_outputs:
                     raise ValueError(
-- 
2.43.0


From 1fcfc64fde0885071ee1ba6218a3aa304f577388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:29 +0000
Subject: [PATCH 58/99] fix: NumpyMatrixResult broadcasts scalar outputs next
 to any other output

---
 hamilton/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/base.py b/hamilton/base.py
index d052731..ec4c6e2 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -355,7 +355,7 @@ class NumpyMatrixResult(ResultMixin):
         num_rows = -1
         columns_with_lengths = collections.OrderedDict()
         for col, val in outputs.items():  # assumption is fixed order
-            if isinstance(val, (int, float)):  # TODO add more things here
+            if isinstance(val, (int, float, np.number)):  # TODO add more things here
                 columns_with_lengths[(col, 1)] = val
             else:
                 length = len(val)
@@ -370,9 +370,11 @@ class NumpyMatrixResult(ResultMixin):
                         f"Got {length} for {col} instead of {num_rows}."
                     )
                 columns_with_lengths[(col, num_rows)] = val
+        if num_rows == -1:  # there are only scalars
+            num_rows = 1
         list_of_columns = []
         for (col, length), val in columns_with_lengths.items():
-            if length != num_rows and length == 1:
+            if isinstance(val, (int, float, np.number)):
                 list_of_columns.append([val] * num_rows)  # expand single values into a full row
             elif length == num_rows:
                 list_of_columns.append(list(val))
-- 
2.43.0


From abd8fb047b61fbf0fe5f1919d9d09385329f9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:05 +0000
Subject: [PATCH 59/99] fix: a pandera check does not alter the checked
 dataframe in place

---
 hamilton/data_quality/pandera_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/data_quality/pandera_validators.py b/hamilton/data_quality/pandera_validators.py
index e764e22..5b007c7 100644
--- a/hamilton/data_quality/pandera_validators.py
+++ b/hamilton/data_quality/pandera_validators.py
@@ -31,7 +31,7 @@ class PanderaDataFrameValidator(base.BaseDefaultValidator):
 
     def validate(self, data: Any) -> base.ValidationResult:
         try:
-            result = self.schema.validate(data, lazy=True, inplace=True)
+            result = self.schema.validate(data, lazy=True)
             if hasattr(result, "dask"):
                 result.compute()
         except pa.errors.SchemaErrors as e:
@@ -77,7 +77,7 @@ class PanderaSeriesSchemaValidator(base.BaseDefaultValidator):
 
     def validate(self, data: Any) -> base.ValidationResult:
         try:
-            result = self.schema.validate(data, lazy=True, inplace=True)
+            result = self.schema.validate(data, lazy=True)
             if hasattr(result, "dask"):
                 result.compute()
         except pa.errors.SchemaErrors as e:
-- 
2.43.0


From a78cdcf9954b1f00327d0d57453e446c488c5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:02 +0000
Subject: [PATCH 60/99] fix: runtime type checks handle tuples, unions,
 Parallelizable, Collect and other generics, and do not hide a node's own
 error

---
 hamilton/htypes.py            | 40 +++++++++++++++++++++++++----------
 hamilton/lifecycle/default.py |  2 +-
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index e1db63a..e5d16ed 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -1,7 +1,9 @@
+import collections
+import collections.abc
 import inspect
 import sys
 import typing
-from typing import Any, Iterable, Optional, Protocol, Tuple, Type, TypeVar, Union
+from typing import Any, Iterable, Optional, Protocol, Tuple, Type, TypeVar
 
 import typing_inspect
 
@@ -383,20 +385,26 @@ def check_instance(obj: Any, type_: Any) -> bool:
     :param type_: The type to check against. This can be a generic type like List[int] or Dict[str, Any].
     :return: True if the object is an instance of the type, False otherwise.
     """
-    if type_ == Any:
+    if type_ == Any or typing_inspect.is_typevar(type_):  # type variables: no runtime comparison
         return True
+    if type_ is None:  # e.g. the argument of list[None]
+        return obj is None
+    type_, _ = get_type_information(type_)  # Annotated[X, ...] is checked as X
+    # If the type is a Union type -- Union[X, Y] or X | Y
+    if typing_inspect.is_union_type(type_):
+        return any(check_instance(obj, t) for t in _get_args(type_))
     # Get the origin of the type (i.e., the base class for generic types)
     origin = getattr(type_, "__origin__", None)
 
     # If the type has an origin, it's a generic type
     if origin is not None:
-        # If the type is a Union type
-        if origin is Union:
-            return any(check_instance(obj, t) for t in type_.__args__)
-        elif origin is Literal:
-            return obj in type_.__args__
+        if origin is Literal:
+            return any(isinstance(obj, type(arg)) and obj == arg for arg in type_.__args__)
+        # These are protocols that stand for any iterable
+        if origin in (Parallelizable, Collect):
+            origin = collections.abc.Iterable
         # Check if the object is an instance of the origin of the type
-        elif not isinstance(obj, origin):
+        if not isinstance(obj, origin):
             return False
 
         # If the type has arguments (i.e., it's a parameterized generic type like List[int])
@@ -404,8 +412,14 @@ def check_instance(obj: Any, type_: Any) -> bool:
             # Get the element type(s) of the generic type
             element_type = type_.__args__
 
+            # If the type is a tuple with one type per element (unless it is Tuple[X, ...])
+            if origin is tuple and element_type[1:] != (Ellipsis,):
+                return len(obj) == len(element_type) and all(
+                    check_instance(i, t) for i, t in zip(obj, element_type)
+                )
+
             # If the object is a dictionary
-            if isinstance(obj, dict):
+            if isinstance(obj, dict) and len(element_type) == 2:
                 all_items_meet_condition = True
 
                 # Iterate over each key-value pair in the dictionary
@@ -422,13 +436,17 @@ def check_instance(obj: Any, type_: Any) -> bool:
                 # Return the result
                 return all_items_meet_condition
 
-            # If the object is a list, set, or tuple
-            elif isinstance(obj, (list, set, tuple)):
+            # If the object is a collection (that we can go through without consuming it)
+            elif isinstance(
+                obj, (list, set, frozenset, tuple, dict, collections.deque, str, bytes)
+            ):
                 element_type = element_type[0]
                 for i in obj:
                     if not check_instance(i, element_type):
                         return False
                 return True
+            # The contents of other generics (generators, callables, ...) cannot be checked
+            return True
 
     # If the type is not a generic type, just use isinstance
     return isinstance(obj, type_)
diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 4240ec9..72a5805 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -517,7 +517,7 @@ class FunctionInputOutputTypeChecker(NodeExecutionHook):
         **future_kwargs: Any,
     ):
         """Checks that the result type matches the expected node return type."""
-        if self.check_output:
+        if self.check_output and success:  # there is no result to check if the node failed
             # Replace the isinstance check in your code with check_instance
             if not htypes.check_instance(result, node_return_type):
                 raise TypeError(
-- 
2.43.0


From 6ffe2c2d11488d014398a8425fd842433d39bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 61/99] fix: legend entries of a drawing are not merged with
 functions of the same name

---
 hamilton/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hamilton/graph.py b/hamilton/graph.py
index 93ee23e..7ddf268 100644
--- a/hamilton/graph.py
+++ b/hamilton/graph.py
@@ -424,16 +424,26 @@ def create_graphviz_graph(
             "collect",
         ]
 
+        # a graphviz vertex is identified by its name: a legend entry that is called like
+        # a vertex of the DAG gets another name, or else the two would be merged.
+        dag_names = {n.name for n in nodes} | set(config)
+
+        def _add_legend_entry(entry: str, style: Dict[str, str]):
+            if entry in dag_names:
+                legend_subgraph.node(**{"name": f"_legend:{entry}", "label": entry, **style})
+            else:
+                legend_subgraph.node(name=entry, **style)
+
         for node_type in sorted(node_types, key=lambda t: sorted_types.index(t)):
             node_style = _get_node_style(node_type)
             modifier_style = _get_function_modifier_style(node_type)
             node_style.update(**modifier_style)
-            legend_subgraph.node(name=node_type, **node_style)
+            _add_legend_entry(node_type, node_style)
 
         for (base_class, node_name), legend_style in extra_legend_nodes.items():
             base_style = _get_node_style(base_class)
             base_style.update(**legend_style)
-            legend_subgraph.node(name=node_name, **base_style)
+            _add_legend_entry(node_name, base_style)
 
         return legend_subgraph
 
-- 
2.43.0


From 4828e101192a5af06a0e3bfa891266b6811fe903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 62/99] fix: building and copying a driver Builder share no
 state with drivers already built

---
 hamilton/async_driver.py | 6 +++---
 hamilton/driver.py       | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 2455279..6ec6dad 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -486,7 +486,7 @@ class Builder(driver.Builder):
 
         :return:
         """
-        adapters = self.adapters if self.adapters is not None else []
+        adapters = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapters.append(self.legacy_graph_adapter)
 
@@ -497,9 +497,9 @@ class Builder(driver.Builder):
         result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
-            self.config,
+            self.config.copy(),
             *self.modules,
-            adapters=self.adapters,
+            adapters=adapters,
             result_builder=specified_result_builder,
             allow_module_overrides=self._allow_module_overrides,
         )
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 4f0afde..9e858cd 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2148,7 +2148,9 @@ class Builder:
         :return: The driver you specified.
         """
 
-        adapter = self.adapters if self.adapters is not None else []
+        # the driver gets its own adapter list and config: later changes to the builder,
+        # or building again, must not affect drivers that are already built
+        adapter = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapter.append(self.legacy_graph_adapter)
 
@@ -2171,7 +2173,7 @@ class Builder:
             )
 
         return Driver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapter=adapter,
             _materializers=self.materializers,
@@ -2185,13 +2187,14 @@ class Builder:
 
         NOTE. The copied Builder currently holds reference of Builder attributes
         """
-        new_builder = Builder()
+        new_builder = type(self)()
         new_builder.v2_executor = self.v2_executor
         new_builder.config = self.config.copy()
         new_builder.modules = self.modules.copy()
         new_builder.legacy_graph_adapter = self.legacy_graph_adapter
         new_builder.adapters = self.adapters.copy()
         new_builder.materializers = self.materializers.copy()
+        new_builder._allow_module_overrides = self._allow_module_overrides
         new_builder.execution_manager = self.execution_manager
         new_builder.local_executor = self.local_executor
         new_builder.remote_executor = self.remote_executor
-- 
2.43.0


From 4521a8711727e3eb9029062e3927494e42985159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 63/99] fix: @schema.output can be stacked on top of other
 metadata decorators

---
 hamilton/function_modifiers/metadata.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hamilton/function_modifiers/metadata.py b/hamilton/function_modifiers/metadata.py
index c874be6..0c6e013 100644
--- a/hamilton/function_modifiers/metadata.py
+++ b/hamilton/function_modifiers/metadata.py
@@ -235,17 +235,18 @@ class SchemaOutput(tag):
             f"right package installed, or (b) reach out to the team to figure out how to add yours."
         )
 
-    @classmethod
-    def allows_multiple(cls) -> bool:
-        """Currently this only applies to a single output. If it is a set of nodes with multiple outputs,
-        it will apply to the "final" (sink) one. We can change this if there's need."""
-        return False
-
     def validate(self, fn: Callable):
-        """Bypassed for now -- we have no function-level or class-level validations yet,
+        """Validates that there is only one schema. Currently this only applies to a single output.
+        If it is a set of nodes with multiple outputs, it will apply to the "final" (sink) one.
+        We can change this if there's need. Other decorators of nodes (E.G. `@tag`) are no obstacle.
+
+        We have no other function-level or class-level validations yet,
         but this is done at `@tag`, which this inherits. We will be moving away from inheriting tag.
         """
-        pass
+        if any(isinstance(d, SchemaOutput) for d in getattr(fn, self.get_lifecycle_name(), [])):
+            raise ValueError(
+                f"Got multiple decorators for decorator @{self.__class__}. Only one allowed."
+            )
 
 
 class schema:
-- 
2.43.0


From b7948c2a5c5885a677141ee30cb3880675a02cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:03 +0000
Subject: [PATCH 64/99] fix: with_columns does not carry the columns of one
 configuration over to another

---
 hamilton/plugins/h_pandas.py           | 10 ++++++----
 hamilton/plugins/h_polars.py           | 10 ++++++----
 hamilton/plugins/h_polars_lazyframe.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/hamilton/plugins/h_pandas.py b/hamilton/plugins/h_pandas.py
index bcbc2e2..6110cbe 100644
--- a/hamilton/plugins/h_pandas.py
+++ b/hamilton/plugins/h_pandas.py
@@ -201,8 +201,10 @@ class with_columns(with_columns_base):
         "Node that adds to / overrides columns for the original dataframe based on selected output."
         # In case no node is selected we append all possible nodes that have a column type matching
         # what the dataframe expects
-        if self.select is None:
-            self.select = [
+        # this depends on the config, so it must not be stored on the decorator, which is shared
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -211,13 +213,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.assign(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars.py b/hamilton/plugins/h_polars.py
index 4ef8609..8834cfd 100644
--- a/hamilton/plugins/h_polars.py
+++ b/hamilton/plugins/h_polars.py
@@ -250,8 +250,10 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        # this depends on the config, so it must not be stored on the decorator, which is shared
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -260,13 +262,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars_lazyframe.py b/hamilton/plugins/h_polars_lazyframe.py
index 00f4326..48f00e7 100644
--- a/hamilton/plugins/h_polars_lazyframe.py
+++ b/hamilton/plugins/h_polars_lazyframe.py
@@ -228,8 +228,10 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        # this depends on the config, so it must not be stored on the decorator, which is shared
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -238,13 +240,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
-- 
2.43.0


From db92c7174dbc1dbb03ad9f387101094ca4c1aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:24 +0000
Subject: [PATCH 65/99] fix: 'hamilton diff --view' draws the diff instead of
 failing

---
 hamilton/cli/logic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 2cd6da6..0a513bf 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -248,6 +248,7 @@ def visualize_diff(
         custom_style_function=diff_style,
         node_modifiers=dict(),
         strictly_display_only_nodes_passed_in=True,
+        config={**reference_dr.graph.config, **current_dr.graph.config},
     )
 
 
-- 
2.43.0


From b063dc35abedf94ba40e794519e072598207fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 66/99] fix: 'hamilton diff' reports the nodes of a newly added
 module instead of failing

---
 hamilton/cli/logic.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 0a513bf..8eda7dc 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -1,6 +1,6 @@
 from pathlib import Path
 from types import ModuleType
-from typing import Dict, List, Union
+from typing import Dict, List, Optional, Union
 
 from hamilton import driver
 
@@ -31,8 +31,11 @@ def get_git_base_directory() -> str:
         raise FileNotFoundError("Git command not found. Please make sure Git is installed.") from e
 
 
-def get_git_reference(git_relative_path: Union[str, Path], git_reference: str) -> str:
-    """Get the source code from the specified file and git reference"""
+def get_git_reference(git_relative_path: Union[str, Path], git_reference: str) -> Optional[str]:
+    """Get the source code from the specified file and git reference.
+
+    Returns None if the file doesn't exist in the git reference.
+    """
     import subprocess
 
     try:
@@ -45,12 +48,17 @@ def get_git_reference(git_relative_path: Union[str, Path], git_reference: str) -
 
         if result.returncode == 0:
             return result.stdout.strip()
-        elif result.returncode == 128:
-            # TODO catch the following error:
-            # fatal: Path '{git_relative_path}' exists on disk, but not in '{git_revision}'.
-            return
-        else:
-            return
+
+        reference = subprocess.run(
+            ["git", "rev-parse", "--verify", "--quiet", f"{git_reference}^{{commit}}"],
+            stdout=subprocess.PIPE,
+            stderr=subprocess.PIPE,
+            text=True,
+        )
+        if reference.returncode != 0:
+            raise ValueError(f"Git reference `{git_reference}` doesn't exist.")
+        # the file exists on disk, but not in the git reference
+        return None
     except FileNotFoundError as e:
         raise FileNotFoundError("Git command not found. Please make sure Git is installed.") from e
 
@@ -114,6 +122,8 @@ def load_modules_from_git(
     for module_path in module_paths:
         relative_to_git = module_path.relative_to(git_base_dir)
         previous_revision = get_git_reference(relative_to_git, git_reference)
+        if previous_revision is None:
+            continue  # the module was added after the git reference
         module = ad_hoc_utils.module_from_source(previous_revision)
         modules.append(module)
 
-- 
2.43.0


From 5ced40e9e102c8c7724ee0c7d03e1586087e9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:08 +0000
Subject: [PATCH 67/99] fix: tracking SDK: make_json_safe handles NaN, circular
 references, non-JSON keys and objects without a string representation

---
 ui/sdk/src/hamilton_sdk/tracking/utils.py | 58 ++++++++++++++++++-----
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/utils.py b/ui/sdk/src/hamilton_sdk/tracking/utils.py
index b0e515d..bbc1fe3 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/utils.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/utils.py
@@ -3,7 +3,7 @@ import datetime
 import json
 import logging
 from enum import Enum
-from typing import Any, Union
+from typing import Any, Tuple, Union
 
 import numpy as np
 
@@ -25,44 +25,76 @@ class CustomEncoder(json.JSONEncoder):
             return str_object
 
 
-def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
+def _safe_str(item: Any) -> str:
+    """Gets the string representation of an item, even if the item does not support that."""
+    try:
+        return str(item)
+    except Exception:
+        return f"<{type(item).__name__}>"
+
+
+def make_json_safe(
+    item: Union[dict, list, str, float, int, bool], _parents: Tuple[Any, ...] = ()
+) -> Any:
     """
     Converts an item to json-serializable format, converting datetime objects to string.
 
+    This never raises an error: what cannot be represented in JSON is represented as a string.
+
     @param item: A dictionary or list potentially containing non-serializable types.
+    @param _parents: the containers we are in -- internal, used to detect circular references.
     @return: A dictionary or list with non-serializable types converted.
     """
+    if any(item is parent for parent in _parents):
+        return "..."  # circular reference
+    try:
+        return _make_json_safe(item, (*_parents, item))
+    except Exception as e:
+        if logger.isEnabledFor(logging.DEBUG):
+            logger.debug(f"Failed to serialize object of type {type(item)}: {e}")
+        return _safe_str(item)
+
+
+def _make_json_safe(item: Any, parents: Tuple[Any, ...]) -> Any:
     if isinstance(item, dict):
-        return {k: make_json_safe(v) for k, v in item.items()}
-    elif isinstance(item, list):
-        return [make_json_safe(elem) for elem in item]
+        return {
+            k if isinstance(k, (str, int, type(None))) else str(k): make_json_safe(v, parents)
+            for k, v in item.items()
+        }
+    elif isinstance(item, (list, tuple)):
+        return [make_json_safe(elem, parents) for elem in item]
     elif isinstance(item, np.ndarray):
-        return make_json_safe(list(item))
+        return make_json_safe(list(item), parents)
     elif isinstance(item, datetime.datetime):
         return item.isoformat()  # Convert datetime object to iso format string
-    elif dataclasses.is_dataclass(item):
-        return make_json_safe(dataclasses.asdict(item))
+    elif dataclasses.is_dataclass(item) and not isinstance(item, type):
+        return {
+            field.name: make_json_safe(getattr(item, field.name), parents)
+            for field in dataclasses.fields(item)
+        }
     elif isinstance(item, Enum):
-        return item.value  # Convert enum to its corresponding value
+        # Convert enum to its corresponding value
+        return make_json_safe(item.value, parents)
     elif hasattr(item, "to_json"):
         # we convert to json string and then deserialize it so that
         # it's not a string in the UI.
         try:
             if hasattr(item, "head"):
                 item = item.head()  # truncate to head rows if it's a dataframe
-            return json.loads(item.to_json())
+            return make_json_safe(json.loads(item.to_json()), parents)
         except Exception:
             # pass
             return str(item)[0:200] + "..."
     elif hasattr(item, "to_dict"):
-        return make_json_safe(item.to_dict())
+        return make_json_safe(item.to_dict(), parents)
     else:
         try:
-            json.dumps(item)  # Check if item is json serializable
+            # Check if item is json serializable -- note that NaN and infinity are not.
+            json.dumps(item, allow_nan=False)
             if isinstance(item, str):
                 # escape null byte -- postgres doesn't like null bytes at least.
                 # we might need to escape more things; TBD.
                 return item.replace("\x00", "\\x00")
             return item
-        except TypeError:
+        except (TypeError, ValueError):
             return str(item)  # Convert item to string if not json serializable
-- 
2.43.0


From 15fc9819ae186e338bc751b43589e6af731fc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:08 +0000
Subject: [PATCH 68/99] fix: tracking SDK: stopping the client sends pending
 updates, a failed request does not end the worker

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..3af24e7 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -233,8 +233,7 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                 # Wait up to flush_interval for new data
                 item = self.data_queue.get(timeout=self.flush_interval)
                 if item is None:
-                    self.flush(batch)
-                    return
+                    break
                 batch.append(item)
 
                 # Check if batch is full or flush interval has passed
@@ -242,15 +241,25 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     len(batch) >= self.max_batch_size
                     or (time.time() - last_flush_time) >= self.flush_interval
                 ):
-                    self.flush(batch)
+                    self._try_flush(batch)
                     batch = []
                     last_flush_time = time.time()
             except queue.Empty:
                 # Flush on timeout if there's any data
                 if batch:
-                    self.flush(batch)
+                    self._try_flush(batch)
                     batch = []
                     last_flush_time = time.time()
+        # We are stopping -- send what we have collected so far
+        if batch:
+            self._try_flush(batch)
+
+    def _try_flush(self, batch):
+        """Flushes the batch. Failing to do so should not stop us from sending later batches."""
+        try:
+            self.flush(batch)
+        except Exception:
+            logger.exception(f"Failed to send a batch of {len(batch)} updates.")
 
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
@@ -279,6 +288,7 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         """Stop the logger and process remaining events."""
         # Signal the worker thread to stop processing new events
         self.running = False
+        self.data_queue.put(None)  # wakes it up in case it is waiting for data
 
         # Wait for the worker thread to process all remaining events
         self.worker_thread.join()
@@ -288,7 +298,8 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
-                self.flush([item])
+                if item is not None:
+                    self._try_flush([item])
             except queue.Empty:
                 break
 
-- 
2.43.0


From c61d072fbbb9aba384a92970a7da16fa910d2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:46 +0000
Subject: [PATCH 69/99] fix: tracking SDK: concurrent tasks of a parallel block
 do not share one task record

---
 ui/sdk/src/hamilton_sdk/adapters.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..40d462b 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -183,8 +183,8 @@ class HamiltonTracker(
         task_run = TaskRun(node_name=node_.name, is_in_sample=in_sample)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -258,7 +258,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -322,7 +322,7 @@ class HamiltonTracker(
                 attribute_role="result_summary",
             )
             attributes.append(other_attr)
-        tracking_state.update_task(node_.name, task_run)
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
         task_update = dict(
             node_template_name=node_.name,
             node_name=get_node_name(node_, task_id),
@@ -510,8 +510,8 @@ class AsyncHamiltonTracker(
         task_run = TaskRun(node_name=node_.name)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -539,7 +539,7 @@ class AsyncHamiltonTracker(
         **future_kwargs,
     ):
         logger.debug("post_node_execute %s", run_id)
-        task_run = self.task_runs[run_id][node_.name]
+        task_run = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
         other_results = []
-- 
2.43.0


From b507427d437951e31a96dbdb0e9d4448b165ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:46 +0000
Subject: [PATCH 70/99] fix: tracking SDK: a failed request does not end the
 worker of the asynchronous client

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 3af24e7..922d9dc 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -594,7 +594,7 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
                     try:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
+                    except aiohttp.ClientResponseError:
                         logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
                         # zraise
 
@@ -609,24 +609,31 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
             )
             try:
                 item = await asyncio.wait_for(self.data_queue.get(), timeout=self.flush_interval)
-                batch.append(item)
             except asyncio.TimeoutError:
                 # This is fine, we just keep waiting
                 pass
             else:
                 if item is None:
-                    await self.flush(batch)
+                    await self._try_flush(batch)
                     return
+                batch.append(item)
 
             # Check if batch is full or flush interval has passed
             if (
                 len(batch) >= self.max_batch_size
                 or (time.time() - last_flush_time) >= self.flush_interval
             ):
-                await self.flush(batch)
+                await self._try_flush(batch)
                 batch = []
                 last_flush_time = time.time()
 
+    async def _try_flush(self, batch):
+        """Flushes the batch. Failing to do so should not stop us from sending later batches."""
+        try:
+            await self.flush(batch)
+        except Exception:
+            logger.exception(f"Failed to send a batch of {len(batch)} updates.")
+
     def _common_headers(self) -> Dict[str, Any]:
         """Yields the common headers for all requests.
 
-- 
2.43.0


From 26e6c3d99e219525cb204949b0983d747a5db46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 71/99] fix: tracking SDK: dictionaries are marked as truncated
 exactly if they are

---
 ui/sdk/src/hamilton_sdk/tracking/data_observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/data_observation.py b/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
index 096b66c..d2d93fc 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
@@ -76,7 +76,7 @@ def compute_stats_primitives(result, node_name: str, node_tags: dict) -> Observa
 def compute_stats_dict(result: dict, node_name: str, node_tags: dict) -> ObservationType:
     """call summary stats on the values in the dict"""
     truncated = False
-    if len(result) >= constants.MAX_DICT_LENGTH_CAPTURE:
+    if len(result) > constants.MAX_DICT_LENGTH_CAPTURE:
         new_result = {}
         for i, k in enumerate(result.keys()):
             new_result[k] = result[k]
@@ -122,7 +122,7 @@ def compute_stats_dict(result: dict, node_name: str, node_tags: dict) -> Observa
                 # it's a DF, Series -- so take full result.
                 result_values[k] = v_result["observability_value"]
     if truncated:
-        result["__truncated__"] = "... values truncated ..."
+        result_values["__truncated__"] = "... values truncated ..."
     return {
         "observability_type": "dict",
         "observability_value": {
-- 
2.43.0


From fafb94e248ce9cdadbefe0d8c8f98aa8b3b8cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 72/99] fix: tracking SDK: the reported summary does not follow
 later changes of a list or dictionary

---
 ui/sdk/src/hamilton_sdk/tracking/data_observation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/data_observation.py b/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
index d2d93fc..cff7c21 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/data_observation.py
@@ -1,3 +1,4 @@
+import copy
 import json
 from functools import singledispatch
 from typing import Any, Dict, List, Optional
@@ -89,7 +90,8 @@ def compute_stats_dict(result: dict, node_name: str, node_tags: dict) -> Observa
     try:
         # if it's JSON serializable, take it.
         json.dumps(result)
-        result_values = result
+        # copy it -- it is sent later, when the result might have been modified.
+        result_values = copy.deepcopy(result)
     except Exception:
         result_values = {}
         for k, v in result.items():
@@ -190,13 +192,15 @@ def compute_stats_list(result: list, node_name: str, node_tags: dict) -> Observa
     try:
         # if it's JSON serializable, take it.
         json.dumps(result)
-        result_values = result
+        # copy it -- it is sent later, when the result might have been modified.
+        result_values = copy.deepcopy(result)
     except Exception:
         result_values = []
         for v in result:
             if isinstance(v, (list, dict, tuple)):
                 try:
                     json.dumps(v)
+                    v = copy.deepcopy(v)
                 except Exception:
                     v = str(v)
                     # else just string it -- max 200 chars.
-- 
2.43.0


From 8258ae5148e577d23ee1225cebbe82625a5f5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 73/99] fix: tracking SDK: a run is reported under its own
 dataflow even if its graph has the id of a discarded one

---
 ui/sdk/src/hamilton_sdk/adapters.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 40d462b..8397a8f 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -114,10 +114,8 @@ class HamiltonTracker(
         if self.seed is None:
             self.seed = random.random()
         logger.debug("post_graph_construct")
+        # Always look this up -- the ID might be that of a graph that has been garbage collected.
         fg_id = id(graph)
-        if fg_id in self.dag_template_id_cache:
-            logger.warning("Skipping creation of DAG template as it already exists.")
-            return
         module_hash = driver._get_modules_hash(modules)
         vcs_info = driver._derive_version_control_info(module_hash)
         dag_hash = driver.hash_dag(graph)
@@ -448,10 +446,8 @@ class AsyncHamiltonTracker(
         self, graph: h_graph.FunctionGraph, modules: List[ModuleType], config: Dict[str, Any]
     ):
         logger.debug("post_graph_construct")
+        # Always look this up -- the ID might be that of a graph that has been garbage collected.
         fg_id = id(graph)
-        if fg_id in self.dag_template_id_cache:
-            logger.warning("Skipping creation of DAG template as it already exists.")
-            return
         module_hash = driver._get_modules_hash(modules)
         vcs_info = driver._derive_version_control_info(module_hash)
         dag_hash = driver.hash_dag(graph)
-- 
2.43.0


From 9bafd4940eb9fed26c191479fad43ee85f6245bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:09 +0000
Subject: [PATCH 74/99] fix: error telemetry does not name user code in a
 directory called "hamilton"

---
 hamilton/telemetry.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index a147909..c873f5b 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -421,17 +421,15 @@ def sanitize_error(exc_type, exc_value, exc_traceback) -> str:
     try:
         te = traceback.TracebackException(exc_type, exc_value, exc_traceback, limit=-5)
         sanitized_string = ""
+        # user code can also live in a directory named "hamilton", so compare with the package itself
+        package_directory = os.path.dirname(os.path.abspath(__file__)) + os.sep
         for stack_item in te.stack:
-            stack_file_path = stack_item.filename.split(os.sep)
-            # take last 4 places only -- that's how deep hamilton is.
-            stack_file_path = stack_file_path[-4:]
-            try:
-                # find first occurrence
-                index = stack_file_path.index("hamilton")
-            except ValueError:
+            stack_file_path = os.path.abspath(stack_item.filename)
+            if not stack_file_path.startswith(package_directory):
                 sanitized_string += "...<USER_CODE>...\n"
                 continue
-            file_name = "..." + "/".join(stack_file_path[index:])
+            relative_path = stack_file_path[len(package_directory) :].split(os.sep)
+            file_name = "..." + "/".join(["hamilton", *relative_path])
             sanitized_string += f"{file_name}, line {stack_item.lineno}, in {stack_item.name}\n"
         return sanitized_string
     except Exception as e:
-- 
2.43.0


From cf817deec85b551cefd2ce82e7496f41b30b54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:09 +0000
Subject: [PATCH 75/99] fix: off-the-shelf dataflows work with telemetry
 disabled

---
 hamilton/dataflows/__init__.py | 7 +++++--
 hamilton/telemetry.py          | 9 +++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 4ee8568..dba5cb5 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -52,8 +52,9 @@ def _track_function_call(call_fn: Callable) -> Callable:
 
     @functools.wraps(call_fn)
     def track_call(*args, **kwargs):
-        event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
-        telemetry.send_event_json(event_json)
+        if telemetry.is_telemetry_enabled():
+            event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
+            telemetry.send_event_json(event_json)
         return call_fn(*args, **kwargs)
 
     return track_call
@@ -71,6 +72,8 @@ def _track_download(is_official: bool, user: Optional[str], dataflow_name: str,
         category = "DAGWORKS"
     else:
         category = "USER"
+    if not telemetry.is_telemetry_enabled():
+        return
     event_json = telemetry.create_dataflow_download_event_json(
         category, user, dataflow_name, version
     )
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index c873f5b..e32f654 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -359,14 +359,11 @@ def create_and_send_contrib_use(module_name: str, version: str):
         dataflow = parts[-1]
         event_json = create_dataflow_download_event_json(category, user, dataflow, version)
         event_json["event"] = DATAFLOW_IMPORT  # overwrite the event name.
+        send_event_json(event_json)
     except Exception as e:
-        # capture any exception!
+        # capture any exception! E.g. telemetry being disabled must not break importing a dataflow.
         if logger.isEnabledFor(logging.DEBUG):
-            logger.debug(
-                f"Encountered error while constructing create_and_send_contrib_use json:\n{e}"
-            )
-    else:
-        send_event_json(event_json)
+            logger.debug(f"Encountered error in create_and_send_contrib_use:\n{e}")
 
 
 def _send_event_json(event_json: dict):
-- 
2.43.0


From e8409ae14d765e104e19826741374613bae58674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 76/99] fix: the type of an input used as Any and as something
 else does not depend on the order of the functions

---
 hamilton/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/graph.py b/hamilton/graph.py
index 7ddf268..6723ddb 100644
--- a/hamilton/graph.py
+++ b/hamilton/graph.py
@@ -100,6 +100,11 @@ def add_dependency(
                 f"Note that, if you have types that are equivalent for your purposes, you can create a "
                 f"graph adapter that checks the types against each other in a more lenient manner."
             )
+        elif required_node.user_defined and required_node.type == Any:
+            # any other expectation is "tighter", whichever of the functions comes first
+            required_node.set_type(param_type)
+            for og_func in func_node.originating_functions:
+                required_node.add_originating_function(og_func)
     else:
         # this is a user defined var, i.e. an input to the graph.
         required_node = node.Node(
-- 
2.43.0


From f53aa31c40805ea8b7c00ffba91479095ee27013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:09 +0000
Subject: [PATCH 77/99] fix: task-based execution ends when there is nothing to
 run

---
 hamilton/execution/grouping.py | 2 ++
 hamilton/execution/state.py    | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index 9520b8b..d5e3eee 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -289,6 +289,8 @@ class GroupNodesAllAsOne(GroupingStrategy):
     """Groups nodes all into one block. TODO -- add validation."""
 
     def group_nodes(self, nodes: List[node.Node]):
+        if len(nodes) == 0:
+            return []
         return [
             NodeGroup(
                 base_id="root",
diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index f121826..b5e6735 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -437,9 +437,10 @@ class ExecutionState:
         """
         if not self.is_initialized:
             return GraphState.UNINITIALIZED
-        elif len(self.task_states) == 0 or all(
-            [state == TaskState.INITIALIZED for state in self.task_states.values()]
-        ):
+        elif len(self.task_states) == 0:
+            # there is nothing to run (E.G. everything requested was provided)
+            return GraphState.SUCCESSFUL
+        elif all([state == TaskState.INITIALIZED for state in self.task_states.values()]):
             return GraphState.INITIALIZED
         elif all([state == TaskState.SUCCESSFUL for state in self.task_states.values()]):
             return GraphState.SUCCESSFUL
-- 
2.43.0


From ae6e888a1cd79b09b735fd65ed4edbcf710f1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 78/99] fix: a failed download of an off-the-shelf dataflow
 does not leave part of it behind

---
 hamilton/dataflows/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index dba5cb5..35ded25 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -204,7 +204,7 @@ def pull_module(dataflow: str, user: str = None, version: str = "latest", overwr
         raise ValueError(
             f"Dataflow {user}/{dataflow} with version {version} already exists locally. Not downloading."
         )
-    os.makedirs(local_file_path, exist_ok=True)
+    contents = {}
     for h_file in h_files:
         if user:
             url = BASE_URL.format(commit_ish=version) + f"/user/{user}/{dataflow}/{h_file}"
@@ -218,7 +218,10 @@ def pull_module(dataflow: str, user: str = None, version: str = "latest", overwr
             raise ValueError(
                 f"Dataflow {user}/{dataflow} returned status code {status_code}:\n{text}"
             )
-        file_contents = text
+        contents[h_file] = text
+    # only save once everything could be retrieved
+    os.makedirs(local_file_path, exist_ok=True)
+    for h_file, file_contents in contents.items():
         if os.path.exists(os.path.join(local_file_path, h_file)):
             logger.info(f"Warning: overwriting {h_file} in {local_file_path}")
         with open(os.path.join(local_file_path, h_file), "w") as f:
-- 
2.43.0


From 19ba82067a18393434e730e0ee51b0b0015ca8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 79/99] fix: a dataflow can be imported when a module of its
 name has no version

---
 hamilton/dataflows/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 35ded25..6d4f3f9 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -277,7 +277,7 @@ def import_module(
 
     if dataflow in sys.modules:
         logger.info(
-            f"Warning: overwriting existing {dataflow} module with version {sys.modules[dataflow].__version__}"
+            f"Warning: overwriting existing {dataflow} module with version {getattr(sys.modules[dataflow], '__version__', None)}"
         )
     spec = importlib.util.spec_from_file_location(dataflow, local_file_path)
     module = importlib.util.module_from_spec(spec)
-- 
2.43.0


From 920fa42a9c51a951b65dddff560d3f3332092325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 80/99] fix: dependencies of a dataflow with version
 specifiers, comments or blank lines are recognized

---
 hamilton/dataflows/__init__.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 6d4f3f9..9f2b9df 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -10,6 +10,7 @@ import importlib
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 import time
@@ -491,20 +492,12 @@ def are_py_dependencies_satisfied(dataflow, user=None, version="latest"):
         lines = req_file.readlines()
 
         for line in lines:
-            line = line.strip()
-            equals = line.find("=")
-            less_than = line.find("<")
-            greater_than = line.find(">")
-            version_marker = min(equals, less_than, greater_than)
-            if version_marker > 0:
-                package_name, required_version = (
-                    line[:version_marker],
-                    line[version_marker + 1 :],
-                )
-            else:
-                package_name = line
-                required_version = None
-            required_version  # noqa here for now...
+            line = line.split("#")[0].strip()
+            if not line or line.startswith("-"):
+                # blank, a comment, or an option of pip
+                continue
+            # the name ends where the version, the extras, the url or the markers begin
+            package_name = re.split(r"[=<>!~;@\[(\s]", line, maxsplit=1)[0]
             try:
                 installed_version = pkg_version(package_name)
                 installed_version  # noqa here for now..
-- 
2.43.0


From 3bbb3f06383d89b455814ad58c677712869295d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 81/99] fix: local dataflows are listed and searched when some
 version has only official ones

---
 hamilton/dataflows/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 9f2b9df..0bcdf8c 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -541,6 +541,8 @@ def list(version: str = "latest", user: str = None) -> list:
         ):
             continue
         commit_path = os.path.join(DATAFLOW_FOLDER, ci, "contrib", "hamilton", "contrib", "user")
+        if not os.path.exists(commit_path):
+            continue  # there are only official dataflows of this version
         for usr in os.listdir(commit_path):
             if (
                 (user and usr != user)
@@ -584,6 +586,8 @@ def find(query: str, version: str = None, user: str = None):
         ):
             continue
         commit_path = os.path.join(DATAFLOW_FOLDER, ci, "contrib", "hamilton", "contrib", "user")
+        if not os.path.exists(commit_path):
+            continue  # there are only official dataflows of this version
         for usr in os.listdir(commit_path):
             if (
                 (user and usr != user)
-- 
2.43.0


From 89a93102f4593c8060b93663df77c3a48a6000e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 82/99] fix: inspecting a dataflow gives its URL as a string

---
 hamilton/dataflows/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 0bcdf8c..a4e30bb 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -320,15 +320,11 @@ def inspect(dataflow: str, user: str = None, version: str = "latest") -> Inspect
 
     if user:
         local_file_path = USER_PATH.format(commit_ish=version, user=user, dataflow=dataflow)
-        dataflow_url = (
-            f"https://github.com/dagworks-inc/hamilton/tree/{version}/contrib/contrib/user/{user}/{dataflow}",
-        )
+        dataflow_url = f"https://github.com/dagworks-inc/hamilton/tree/{version}/contrib/contrib/user/{user}/{dataflow}"
         user_url = f"https://github.com/{user}"
     else:
         local_file_path = OFFICIAL_PATH.format(commit_ish=version, dataflow=dataflow)
-        dataflow_url = (
-            f"https://github.com/dagworks-inc/hamilton/tree/{version}/contrib/contrib/dagworks/{dataflow}",
-        )
+        dataflow_url = f"https://github.com/dagworks-inc/hamilton/tree/{version}/contrib/contrib/dagworks/{dataflow}"
         user_url = None
     if not os.path.exists(local_file_path):
         raise ValueError(
-- 
2.43.0


From 32b8314168c08bd77299e7cc56f66ce13a2e38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 83/99] fix: the resolved commit of one branch is not reported
 for another branch

---
 hamilton/dataflows/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index a4e30bb..75be2e7 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -107,8 +107,7 @@ def clear_storage():
 
 
 # want TTL cache on this call to not get rate limited.
-last_time_called = None
-last_resolve_value = None
+last_resolved: Dict[str, Tuple[float, str]] = {}  # branch -> (time, commit)
 
 
 @_track_function_call
@@ -117,9 +116,8 @@ def resolve_latest_branch_commit(branch: str = "main") -> str:
 
     :return: commit for what "main" is.
     """
-    global last_time_called
-    global last_resolve_value
-    if last_time_called is not None and last_resolve_value is not None:
+    if branch in last_resolved:
+        last_time_called, last_resolve_value = last_resolved[branch]
         if (last_time_called + 60.0) > time.time():
             logger.info("using cached resolve_latest")
             return last_resolve_value
@@ -131,8 +129,7 @@ def resolve_latest_branch_commit(branch: str = "main") -> str:
             f"Failed to resolve latest commit for branch {branch}:\n{status_code}\n{text}"
         )
     commit_sha = json.loads(text)["object"]["sha"]
-    last_time_called = time.time()
-    last_resolve_value = commit_sha
+    last_resolved[branch] = (time.time(), commit_sha)
     return commit_sha
 
 
-- 
2.43.0


From f64ba8ab7d176510ef2da97287ff3daac166ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:05 +0000
Subject: [PATCH 84/99] fix: a static validator that gives no message still
 reports what it rejects

---
 hamilton/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 9e858cd..2d6ccfa 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -371,7 +371,7 @@ class Driver:
             if len(node_validation_results) > 0:
                 error_delimiter = "\n\t"  # expression fragments not allowed in f-strings
                 errors = [
-                    f"{node_name}: {error_delimiter.join([item for item in messages])}"
+                    f"{node_name}: {error_delimiter.join([str(item) for item in messages])}"
                     for node_name, messages in sorted(
                         node_validation_results.items(), key=operator.itemgetter(0)
                     )
@@ -391,7 +391,7 @@ class Driver:
             )
             if validation_results:
                 error_delimiter = "\t"
-                errors = sorted([result.error for result in validation_results])
+                errors = sorted([str(result.error) for result in validation_results])
                 error_str = (
                     f"Graph validation failed! {len(errors)} errors encountered:{error_delimiter}"
                     + error_delimiter.join(errors)
-- 
2.43.0


From b960c04dba6fa7532efc9240a6676c839ff7b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:08 +0000
Subject: [PATCH 85/99] fix: dask: nodes of one name in two drivers are not
 taken for the same computation

---
 hamilton/plugins/h_dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_dask.py b/hamilton/plugins/h_dask.py
index 6a15c8b..6bffb28 100644
--- a/hamilton/plugins/h_dask.py
+++ b/hamilton/plugins/h_dask.py
@@ -137,7 +137,9 @@ class DaskGraphAdapter(base.HamiltonGraphAdapter):
             return node.callable(**kwargs)
         # we want to ensure the name in dask corresponds to the node name, and not the wrapped
         # function name that hamilton might have wrapped it with.
-        hash = tokenize(kwargs)  # this is what the dask docs recommend.
+        # this is what the dask docs recommend. It includes the function, as dask takes two computations
+        # of one name for the same, E.G. those of two drivers that are computed together.
+        hash = tokenize(node.callable, kwargs)
         name = node.name + hash
         dask_key_name = str(node.name) + "_" + hash
         return delayed(node.callable, name=name)(
-- 
2.43.0


From 9079e4829595b38e31c00b8601d2619ce28844e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:28 +0000
Subject: [PATCH 86/99] fix: ProgressBar breaks runs that execute no node

---
 hamilton/plugins/h_tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_tqdm.py b/hamilton/plugins/h_tqdm.py
index c7c25a0..9e48b2c 100644
--- a/hamilton/plugins/h_tqdm.py
+++ b/hamilton/plugins/h_tqdm.py
@@ -69,7 +69,7 @@ class ProgressBar(
     ):
         total_node_to_execute = len(execution_path)
         max_node_name_length = min(
-            max([len(node) for node in execution_path]), self.max_node_name_width
+            max([len(node) for node in execution_path], default=0), self.max_node_name_width
         )
         if self.node_name_target_width is None:
             self.node_name_target_width = max_node_name_length
-- 
2.43.0


From 367b1651599fe2af698f4b810d6e4065a5de3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:28 +0000
Subject: [PATCH 87/99] fix: OpenLineageAdapter derives the format of loaded
 data from the node name

---
 hamilton/plugins/h_openlineage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_openlineage.py b/hamilton/plugins/h_openlineage.py
index ea06699..bdfeb58 100644
--- a/hamilton/plugins/h_openlineage.py
+++ b/hamilton/plugins/h_openlineage.py
@@ -63,7 +63,7 @@ def create_input_dataset(namespace: str, metadata: dict, node_) -> list[event_v2
         if ".loader" in name:
             name = name.split(".loader")[0]
         path = metadata["file_metadata"]["path"]
-        format = path.split(".")[-1] if "." in name else "unknown"
+        format = path.split(".")[-1] if "." in path else "unknown"
         storage_facet = facet_v2.storage_dataset.StorageDatasetFacet(
             storageLayer="FileSystem",
             fileFormat=format,
-- 
2.43.0


From 3be1fabeba25c678aaf22e79dbec9a9d56f38dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 88/99] fix: ExperimentTracker: executions without inputs,
 repeated executions

---
 hamilton/plugins/h_experiments/hook.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 006071b..8f57f73 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -133,6 +133,10 @@ class ExperimentTracker(
     ):
         """Store execution metadata: graph hash, inputs, overrides"""
         self.graph_hash = graph.version
+        inputs = inputs or {}
+        # the record describes this execution, not the ones before
+        self.inputs = []
+        self.overrides = []
 
         for node in graph.nodes:
             if node.tags.get("module"):
-- 
2.43.0


From 62489f76017ec8881becdfdbe247548d991a73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 89/99] fix: ExperimentTracker hides the error of a failing
 saver, breaks on savers without a path

---
 hamilton/plugins/h_experiments/hook.py | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 8f57f73..03f4275 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -161,13 +161,23 @@ class ExperimentTracker(
             os.chdir(self.run_directory)  # before materialization
 
     def run_after_node_execution(
-        self, *, node_name: str, node_tags: dict, node_kwargs: dict, result: Any, **kwargs
+        self,
+        *,
+        node_name: str,
+        node_tags: dict,
+        node_kwargs: dict,
+        result: Any,
+        success: bool,
+        **kwargs,
     ):
         """Move back to init directory after executing materializer.
         Then, save materialization metadata
         """
         if node_tags.get("hamilton.data_saver") is True:
-            if "path" in result:
+            path = None
+            if not success:
+                pass  # nothing was materialized
+            elif "path" in result:
                 path = result["path"]
             elif "file_metadata" in result:
                 path = result["file_metadata"]["path"]
@@ -176,14 +186,15 @@ class ExperimentTracker(
                     f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
                     f"'path' or 'file_metadata' keys."
                 )
-            self.materializers.append(
-                NodeMaterializer(
-                    source_nodes=list(node_kwargs.keys()),
-                    path=str(Path(path).resolve()),
-                    sink=node_tags["hamilton.data_saver.sink"],
-                    data_saver=node_tags["hamilton.data_saver.classname"],
+            if path is not None:
+                self.materializers.append(
+                    NodeMaterializer(
+                        source_nodes=list(node_kwargs.keys()),
+                        path=str(Path(path).resolve()),
+                        sink=node_tags["hamilton.data_saver.sink"],
+                        data_saver=node_tags["hamilton.data_saver.classname"],
+                    )
                 )
-            )
             os.chdir(self.init_directory)  # after materialization
 
     def run_after_graph_execution(self, *, success: bool, **kwargs):
-- 
2.43.0


From 97882f9764c35c32ab70c9dac55521d9f5d9aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 90/99] fix: an input that a materializer and a function use
 with different types

---
 hamilton/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/graph.py b/hamilton/graph.py
index 6723ddb..a71ff68 100644
--- a/hamilton/graph.py
+++ b/hamilton/graph.py
@@ -90,7 +90,7 @@ def add_dependency(
                 # replace the current type with this "tighter" type.
                 required_node.set_type(param_type)
                 # add to the originating functions
-                for og_func in func_node.originating_functions:
+                for og_func in func_node.originating_functions or ():
                     required_node.add_originating_function(og_func)
         elif not types_do_match:
             raise ValueError(
@@ -103,7 +103,7 @@ def add_dependency(
         elif required_node.user_defined and required_node.type == Any:
             # any other expectation is "tighter", whichever of the functions comes first
             required_node.set_type(param_type)
-            for og_func in func_node.originating_functions:
+            for og_func in func_node.originating_functions or ():
                 required_node.add_originating_function(og_func)
     else:
         # this is a user defined var, i.e. an input to the graph.
-- 
2.43.0


From 9d78dc18810279dd6d4baad4c52f30f0673ba308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 91/99] fix: PySparkUDFGraphAdapter starts each execution
 afresh, also after one that failed

---
 hamilton/plugins/h_spark.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_spark.py b/hamilton/plugins/h_spark.py
index 499a488..77587c1 100644
--- a/hamilton/plugins/h_spark.py
+++ b/hamilton/plugins/h_spark.py
@@ -422,7 +422,9 @@ def _lambda_udf(df: DataFrame, node_: node.Node, actual_kwargs: Dict[str, Any])
     return out
 
 
-class PySparkUDFGraphAdapter(base.SimplePythonDataFrameGraphAdapter):
+class PySparkUDFGraphAdapter(
+    base.SimplePythonDataFrameGraphAdapter, lifecycle_base.BasePreGraphExecute
+):
     """UDF graph adapter for PySpark.
 
     This graph adapter enables one to write Hamilton functions that can be executed as UDFs in PySpark.
@@ -443,6 +445,11 @@ class PySparkUDFGraphAdapter(base.SimplePythonDataFrameGraphAdapter):
         self.original_schema = []
         self.call_count = 0
 
+    def pre_graph_execute(self, **kwargs: Any):
+        """Each execution starts afresh, whether or not the previous one got to its result."""
+        self.df_object = None
+        self.original_schema = []
+
     @staticmethod
     def check_input_type(node_type: Type, input_value: Any) -> bool:
         """If the input is a pyspark dataframe, skip, else delegate the check."""
-- 
2.43.0


From 69e7124381c223b3dbc287d8357ef07995dd8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:39 +0000
Subject: [PATCH 92/99] fix: SchemaValidator: nodes of one namespace share a
 schema file

---
 hamilton/plugins/h_schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 6e936dd..cccb983 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -412,7 +412,8 @@ class SchemaValidator(NodeExecutionHook, GraphExecutionHook):
         but it wouldn't communicate that the file contains only schema metadata.
         The serialization format is IPC by default (see `.save_schema()`).
         """
-        return Path(self.schema_dir, node_name).with_suffix(".schema")
+        # `.with_suffix()` would drop the last part of the name of a namespaced node ("ns.node")
+        return Path(self.schema_dir, f"{node_name}.schema")
 
     def run_before_graph_execution(
         self, *, graph: HamiltonGraph, inputs: Dict[str, Any], overrides: Dict[str, Any], **kwargs
-- 
2.43.0


From 073e826dfe18dcd1eba632f8c9869f1d4b57e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:39 +0000
Subject: [PATCH 93/99] fix: SchemaValidator fails on a table given as an input
 that no node reads

---
 hamilton/plugins/h_schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index cccb983..32fa7d9 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -420,11 +420,15 @@ class SchemaValidator(NodeExecutionHook, GraphExecutionHook):
     ):
         """Store schemas of inputs and overrides nodes that are tables or columns."""
         self.h_graph = graph
+        graph_node_names = {n.name for n in graph.nodes}
         for node_sets in [inputs, overrides]:
             if node_sets is None:
                 continue
 
             for node_name, node_value in node_sets.items():
+                # inputs and overrides may hold values the graph has no node for
+                if node_name not in graph_node_names:
+                    continue
                 self.run_after_node_execution(node_name=node_name, result=node_value)
 
     def run_after_node_execution(self, *, node_name: str, result: Any, **kwargs):
-- 
2.43.0


From 4fe013f9243eef71697279c90644159c136a6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:40 +0000
Subject: [PATCH 94/99] fix: schema diff: nullable and metadata differences
 crash, unchecked metadata is reported

---
 hamilton/plugins/h_schema.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 32fa7d9..13ba6cf 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -72,6 +72,10 @@ def _diff_mappings(
 SCHEMA_METADATA_FIELD = "__metadata"
 
 
+def _remove_field_metadata(schema: pyarrow.Schema) -> pyarrow.Schema:
+    return pyarrow.schema([f.remove_metadata() for f in schema], metadata=schema.metadata)
+
+
 # TODO add check for field metadata
 def diff_schemas(
     current_schema: pyarrow.Schema,
@@ -105,10 +109,16 @@ def diff_schemas(
         }
 
     """
+    # leave out the metadata that is not to be compared
+    if not check_field_metadata:
+        current_schema = _remove_field_metadata(current_schema)
+        reference_schema = _remove_field_metadata(reference_schema)
+    if not check_schema_metadata:
+        current_schema = current_schema.remove_metadata()
+        reference_schema = reference_schema.remove_metadata()
+
     # if schemas are equal, return an empty diff
-    if current_schema.equals(
-        reference_schema, check_metadata=(check_schema_metadata or check_field_metadata)
-    ):
+    if current_schema.equals(reference_schema, check_metadata=True):
         return {}
 
     current_schema = pyarrow_schema_to_json(current_schema)
@@ -118,6 +128,8 @@ def diff_schemas(
 
     # compare fields shared by both schemas
     for field_name, diff_result in schema_diff.items():
+        if field_name == SCHEMA_METADATA_FIELD:
+            continue
         if diff_result.diff == Diff.UNEQUAL:
             current_field = current_schema.get(field_name, {})
             reference_field = reference_schema.get(field_name, {})
@@ -194,10 +206,11 @@ def human_readable_diff(diff: dict) -> dict:
             readable_diff[field_name] = diff_result.diff.value
 
         elif diff_result.diff == Diff.UNEQUAL:
-            if diff_result.value.get("cur"):
-                readable_diff[field_name] = diff_result.value
-            else:
+            # either a diff of the entries of a mapping, or {"cur": value, "ref": value}
+            if all(isinstance(v, DiffResult) for v in diff_result.value.values()):
                 readable_diff[field_name] = human_readable_diff(diff_result.value)
+            else:
+                readable_diff[field_name] = diff_result.value
 
     return dict(sorted(readable_diff.items()))
 
-- 
2.43.0


From 6e2199dacd277cfd5b609130c43eaa6f78c3135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:57 +0000
Subject: [PATCH 95/99] fix: PySparkUDFGraphAdapter overwrites an existing
 column when functions are chained

---
 hamilton/plugins/h_spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_spark.py b/hamilton/plugins/h_spark.py
index 77587c1..3cb99ae 100644
--- a/hamilton/plugins/h_spark.py
+++ b/hamilton/plugins/h_spark.py
@@ -492,7 +492,7 @@ class PySparkUDFGraphAdapter(
             self.original_schema = list(df.columns)
         logger.debug("%s, %s", self.call_count, self.df_object)
         logger.debug("%s, Before, %s", node.name, self.df_object.columns)
-        schema_length = len(df.schema)
+        schema_length = len(self.df_object.schema)
         df = _lambda_udf(self.df_object, node, actual_kwargs)
         assert node.name in df.columns, f"Error {node.name} not in {df.columns}"
         delta = len(df.schema) - schema_length
-- 
2.43.0


From 05bae7cc8d130bb881400ffce02cbb0985ecffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:36 +0000
Subject: [PATCH 96/99] fix: adapters implementing a method or a validator need
 not be hashable

---
 hamilton/lifecycle/base.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hamilton/lifecycle/base.py b/hamilton/lifecycle/base.py
index bcd5fed..abb944c 100644
--- a/hamilton/lifecycle/base.py
+++ b/hamilton/lifecycle/base.py
@@ -787,13 +787,14 @@ class LifecycleAdapterSet:
     def _get_lifecycle_validators(
         self,
     ) -> Dict[str, List[LifecycleAdapter]]:
-        sync_validators = collections.defaultdict(set)
+        sync_validators = collections.defaultdict(list)
         for adapter in self.adapters:
             for cls in inspect.getmro(adapter.__class__):
                 sync_validator = getattr(cls, SYNC_VALIDATOR, None)
                 if sync_validator is not None:
-                    sync_validators[sync_validator].add(adapter)
-        return {validator: list(adapters) for validator, adapters in sync_validators.items()}
+                    if not any(adapter is seen for seen in sync_validators[sync_validator]):
+                        sync_validators[sync_validator].append(adapter)
+        return {validator: adapters for validator, adapters in sync_validators.items()}
 
     def _get_lifecycle_hooks(
         self,
@@ -818,16 +819,18 @@ class LifecycleAdapterSet:
     def _get_lifecycle_methods(
         self,
     ) -> Tuple[Dict[str, List[LifecycleAdapter]], Dict[str, List[LifecycleAdapter]]]:
-        sync_methods = collections.defaultdict(set)
-        async_methods = collections.defaultdict(set)
+        sync_methods = collections.defaultdict(list)
+        async_methods = collections.defaultdict(list)
         for adapter in self.adapters:
             for cls in inspect.getmro(adapter.__class__):
                 sync_method = getattr(cls, SYNC_METHOD, None)
                 if sync_method is not None:
-                    sync_methods[sync_method].add(adapter)
+                    if not any(adapter is seen for seen in sync_methods[sync_method]):
+                        sync_methods[sync_method].append(adapter)
                 async_method = getattr(cls, ASYNC_METHOD, None)
                 if async_method is not None:
-                    async_methods[async_method].add(adapter)
+                    if not any(adapter is seen for seen in async_methods[async_method]):
+                        async_methods[async_method].append(adapter)
         multiple_implementations_sync = [
             method for method, adapters in sync_methods.items() if len(adapters) > 1
         ]
@@ -841,8 +844,8 @@ class LifecycleAdapterSet:
                 f"Async methods: {multiple_implementations_async}"
             )
         return (
-            {method: list(adapters) for method, adapters in sync_methods.items()},
-            {method: list(adapters) for method, adapters in async_methods.items()},
+            {method: adapters for method, adapters in sync_methods.items()},
+            {method: adapters for method, adapters in async_methods.items()},
         )
 
     def does_hook(self, hook_name: str, is_async: Optional[bool] = None) -> bool:
-- 
2.43.0


From 878eb2c06c3cdc6a2dcbd578d75768fc6937187e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:48:35 +0000
Subject: [PATCH 97/99] fix: evicting from the disk cache keeps every entry of
 the current versions

---
 hamilton/plugins/h_diskcache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/h_diskcache.py b/hamilton/plugins/h_diskcache.py
index f2453b2..dd0ee0e 100644
--- a/hamilton/plugins/h_diskcache.py
+++ b/hamilton/plugins/h_diskcache.py
@@ -27,10 +27,12 @@ def evict_all_except(nodes_to_keep: Dict[str, node.Node], cache: diskcache.Cache
         if node_name in nodes_to_keep.keys():
             node_to_keep = nodes_to_keep[node_name]
             hash_to_keep = graph_types.hash_source_code(node_to_keep.callable, strip=True)
-            history.remove(hash_to_keep)
-            new_nodes_history[node_name] = [hash_to_keep]
+            if hash_to_keep in history:
+                new_nodes_history[node_name] = [hash_to_keep]
+            # a version appears once per result stored, and might not have been stored at all
+            history = [hash_ for hash_ in history if hash_ != hash_to_keep]
 
-        for hash_to_evict in history:
+        for hash_to_evict in dict.fromkeys(history):
             cache.evict(tag=f"{node_name}.{hash_to_evict}")
             eviction_counter += 1
 
-- 
2.43.0


From d0c7d1b457c5977018f507b773ae70f2743815e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:49:08 +0000
Subject: [PATCH 98/99] fix: CacheAdapter does not store a result under another
 version of the node

---
 hamilton/lifecycle/default.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 72a5805..9ab9d9b 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -392,6 +392,8 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
 
         from_cache = self.cache.get(cache_key, None)
         if from_cache is not None:
+            # there's nothing to store; a previous miss might be of another version of the node
+            self.used_nodes_hash.pop(node_name, None)
             return from_cache
 
         self.used_nodes_hash[node_name] = node_hash
-- 
2.43.0


From 08a8c9770a2119c0317dc11bb2a850638041ea43 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 99/99] fix: CacheAdapter tells optional inputs apart

---
 hamilton/lifecycle/default.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 9ab9d9b..a399aac 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -434,7 +434,9 @@ class CacheAdapter(NodeExecutionHook, NodeExecutionMethod, GraphExecutionHook):
         digest = hashlib.sha256()
         digest.update(node_hash.encode())
 
-        for ins in node_inputs.values():
+        for name, ins in node_inputs.items():
+            # optional inputs may be absent: a value only means something with its name
+            digest.update(pickle.dumps(name))
             digest.update(pickle.dumps(ins))
 
         return digest.hexdigest()
-- 
2.43.0

