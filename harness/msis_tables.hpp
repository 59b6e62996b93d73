#pragma once
// Coefficients of NRLMSISE-00 (published with the model), rows separated.
static const char *const MSIS_PTM[] = {"0:1041.3 1:386 2:195 3:16.6728 4:213 5:120 6:240 7:187 8:-2"};
static const char *const MSIS_PDM[] = {"0:2.456e+07 1:6.71072e-06 2:100 4:110 5:10",
  "0:8.594e+10 1:1 2:105 3:-8 4:110 5:10 6:90 7:2",
  "0:2.81e+11 2:105 3:28 4:28.95",
  "0:3.3e+10 1:0.26827 2:105 3:1 4:110 5:10 6:110 7:-10",
  "0:1.33e+09 1:0.0119615 2:105 4:110 5:10",
  "0:176100 1:1 2:95 3:-8 4:110 5:10 6:90 7:2",
  "0:1e+07 1:1 2:105 3:-8 4:110 5:10 6:90 7:2",
  "0:1e+06 1:1 2:105 3:-8 4:550 5:76 6:90 7:2 9:4000"};
static const char *const MSIS_PAVGM[] = {"0:261 1:264 2:229 3:217 4:217 5:223 6:286.76 7:-2.9394 8:2.5"};
static const char *const MSIS_PMA[] = {"0:0.981637 1:-0.00141317 2:0.0387323 9:-0.0358707 10:-0.00863658 13:-2.02226 15:-0.00869424 16:-0.0191397 17:87.6779 18:0.00452188 20:0.022376 26:-0.00707572 30:-0.0041121 31:35.006 37:-0.00836657 38:16.1347 47:-0.014513 64:0.00124152 65:0.000643365 74:0.00133255 75:0.00242657 76:0.00160666 77:-0.00185728 78:-0.00146874 79:-4.79163e-06 80:1.22464 81:35.351 83:0.449223 84:-47.7466 85:0.470681 86:8.41861 87:-0.288198 88:167.854 90:0.000711493 91:0.000605601 99:2",
  "0:1.00422 1:-0.00711212 2:0.0052448 9:-0.0528914 10:-0.0241301 13:-21.2219 14:-0.010383 15:-0.00328077 16:0.0165727 17:1.68564 18:-0.00668154 20:0.0145155 22:0.00842365 26:-0.00434645 29:0.021678 31:-138.459 37:0.00704573 38:-47.3204 47:0.0108767 59:-0.00808279 64:0.000521769 65:-0.000227387 74:0.00326769 75:0.00316901 76:0.000460316 77:-0.000101431 78:0.00102131 79:0.000996601 80:1.25707 81:25.0114 83:0.424472 84:-27.7655 85:0.344625 86:27.5412 88:794.251 90:0.00245835 91:0.00138871 99:2",
  "0:1.0189 1:-0.0246603 2:0.0100078 9:-0.0670977 10:-0.0402286 13:-22.9466 14:-0.00747019 15:0.0022658 16:0.0263931 17:37.2625 18:-0.00639041 20:0.00958383 26:-0.00185291 31:139.717 37:0.00919771 38:-369.121 47:-0.0157067 59:-0.00707265 64:-0.00292953 65:-0.00277739 66:-0.000440092 74:0.0024728 75:0.000295035 76:-0.00181246 77:0.00281945 78:0.00427296 79:0.000978863 80:1.40545 81:-6.19173 84:-79.3632 85:0.444643 86:-403.085 88:11.5603 90:0.00225068 91:0.000848557 92:-0.000298493 99:2",
  "0:0.975801 1:0.038068 2:-0.0305198 9:0.0385575 10:0.0504057 13:-176.046 14:0.0144594 15:-0.00148297 16:-0.0036856 17:30.2185 18:-0.00323338 20:0.0153569 22:-0.0115558 26:0.0048962 29:-0.0100616 30:-0.00821324 31:-157.757 37:0.00663564 38:45.841 47:-0.025128 59:0.00991215 64:-0.000873148 65:-0.00129648 66:-7.32026e-05 74:-0.0046811 75:-0.00466003 76:-0.00131567 77:-0.00073939 78:0.000632499 79:-0.000465588 80:-1.29785 81:-157.139 83:0.25835 84:-36.9453 85:0.410672 86:9.78196 87:-0.152064 88:-3850.84 90:-0.000852706 91:-0.00140945 92:-0.000726786 99:2",
  "0:0.960722 1:0.0703757 2:-0.0300266 9:0.0222671 10:0.0410423 13:-163.07 14:0.0106073 15:0.000540747 16:0.00779481 17:144.908 18:0.000151484 20:0.0197547 22:-0.0141844 26:0.00577884 29:0.00974319 31:-2880.15 37:-0.00444902 38:-29.276 47:0.0234419 59:0.00536685 64:-0.000465325 65:-0.000550628 66:0.000331465 74:-0.00206179 75:-0.00308575 76:-0.000793589 77:-0.000108629 78:0.000595511 79:-0.00090505 80:1.18997 81:41.5924 83:-0.472064 84:-947.15 85:0.398723 86:19.8304 88:3732.19 90:-0.0015004 91:-0.00114933 92:-0.000156769 99:2",
  "0:1.03123 1:-0.0705124 2:0.00871615 9:-0.0382621 10:-0.00980975 13:28.9286 14:0.00957341 17:86.6153 18:0.000791938 22:0.00468917 26:0.00786638 29:0.00990827 31:65.5573 38:-40.02 47:0.00707457 59:0.00572268 64:-0.00020497 65:0.0012156 66:-8.05579e-06 74:-0.00249941 75:-0.000457256 76:-0.000159311 77:0.000296481 78:-0.00177318 79:-0.000637918 80:1.02395 81:12.8172 83:0.149903 84:-26.3818 86:47.0628 87:-0.222139 88:0.0482292 90:-0.000867075 91:-0.000586479 92:0.000532462 99:2",
  "0:1.00828 1:-0.0910404 2:-0.0226549 9:-0.023242 10:-0.00908925 13:33.6105 17:-12.4957 18:-0.00587939 31:27.9765 38:2012.37 47:-0.0175553 64:0.00329699 65:0.00126659 66:0.000268402 74:0.00117894 75:0.00148746 76:0.000106478 77:0.000134743 78:-0.00220939 79:-0.000623523 80:0.636539 81:11.3621 83:-0.393777 84:2386.87 86:661.865 87:-0.121434 88:9.27608 90:0.000168478 91:0.00124892 92:0.00171345 99:2",
  "0:1.57293 1:-0.6784 2:0.6475 9:-0.0762974 10:-0.360423 13:128.358 17:46.8038 26:-0.167898 31:29099.4 38:31.5706 99:2",
  "0:0.860028 1:0.377052 9:-1.1757 13:0.00777757 17:101.024 31:654.251 74:-0.0156959 75:0.0191001 76:0.0315971 77:0.0100982 78:-0.00671565 79:0.00257693 80:1.38692 81:0.282132 84:381.511 99:2",
  "0:1.06029 1:-0.0525231 2:0.373034 9:0.0331072 10:-0.388409 13:-165.295 14:-0.213801 15:-0.0438916 16:-0.322716 17:-88.2393 18:0.118458 20:-0.435863 26:-0.119782 31:26.2229 38:-53.7443 47:-0.455788 64:0.0384009 65:0.0396733 74:0.0505494 75:0.0739617 76:0.01922 77:-0.00846151 78:-0.0134244 79:0.0196338 80:1.50421 81:18.8368 84:-51.3114 90:0.0511923 91:0.0361225 99:2"};
static const char *const MSIS_PD[] = {"0:1.09979 1:-0.048806 2:-0.197501 3:-0.091028 4:-0.00696558 5:0.0242136 6:0.391333 7:-0.00720068 8:-0.0322718 9:1.41508 10:0.168194 11:0.0185282 12:0.109384 13:-7.24282 15:0.296377 16:-0.049721 17:104.114 18:-0.0861108 19:-0.000729177 20:1.48998e-06 21:0.00108629 24:0.083109 25:0.112818 26:-0.0575005 27:-0.0129919 28:-0.0178849 29:-2.86343e-06 31:-151.187 32:-0.00665902 34:-0.00202069 37:0.0432264 38:-28.0444 39:-0.00326789 40:0.00247461 43:0.09821 44:0.122714 45:-0.039645 47:-0.00276489 49:0.00187723 50:-0.00809813 51:4.34428e-05 52:-0.00770932 54:-0.00228894 55:-0.0056907 56:-0.00522193 57:0.00600692 58:-7804.34 59:-0.00348336 60:-0.00638362 61:-0.0018219 63:-75.8976 64:-0.0217875 65:-0.0172524 66:-0.00906287 68:0.0244725 69:0.086604 70:0.105712 71:30254.3 75:-6013.64 76:-0.00564668 77:-0.00254157 79:315.611 80:-0.00569158 83:-0.00447216 84:-0.00449523 85:0.00464428 90:0.0451236 91:0.024652 92:0.00617794 95:-0.362944 96:-0.0480022 97:-75.723 98:-0.00199656 100:-0.0051878 101:-0.017399 102:-0.00903485 103:0.00748465 104:0.0153267 105:0.0106296 106:0.0118655 107:0.00255569 108:0.0016902 109:0.0351936 110:-0.0181242 112:-0.100529 113:-0.00510574 115:0.00210228 118:-173.255 119:0.507833 120:-0.241408 121:0.00875414 122:0.00277527 123:-8.90353e-05 124:-5.25148 125:-0.00583899 126:-0.0209122 127:-0.0096353 128:0.00977164 129:0.00407051 130:0.000253555 131:-5.52875 132:-0.355993 133:-0.00249231 136:28.6026 138:0.000342722",
  "0:1.02315 1:-0.15971 2:-0.10663 3:-0.0177074 4:-0.00442726 5:0.0344803 6:0.0445613 7:-0.0333751 8:-0.0573598 9:0.35036 10:0.0633053 11:0.0216221 12:0.0542577 13:-5.74193 15:0.190891 16:-0.0139194 17:101.102 18:0.0816363 19:0.000133717 20:6.54403e-06 21:0.00310295 24:0.0538205 25:0.12391 26:-0.0139831 29:-3.95915e-06 31:-0.714651 32:-0.00501027 34:-0.00324756 37:0.0442173 38:-13.1598 39:-0.00315626 40:0.00124574 41:-0.00147626 42:-0.00155461 43:0.0640682 44:0.134898 45:-0.0242415 49:0.000613666 50:-0.00540373 51:2.61635e-05 52:-0.00333012 54:-0.00308101 55:-0.00242679 56:-0.00336086 58:-1189.79 59:-0.0504738 60:-0.00261547 61:-0.00103132 62:0.000191583 63:-83.8132 64:-0.0140517 65:-0.0114167 66:-0.00408012 67:0.000173522 68:-0.0139644 69:-0.0664128 70:-0.0685152 71:-13441.4 75:607.916 76:-0.0041222 77:-0.00220996 79:1702.77 80:-0.00463015 83:-0.0022536 84:-0.00296204 90:0.0392786 91:0.0131186 92:-0.00178086 95:-0.390083 96:-0.0284741 97:-77.84 98:-0.00102601 100:-0.000726485 101:-0.00542181 102:-0.00559305 103:0.0122825 104:0.0123868 105:0.00668835 106:-0.0103303 107:-0.00951903 108:0.000270021 109:-0.0257084 110:-0.013243 112:-0.0381 113:-0.0031681 121:-0.000905762 122:-0.0021459 123:-0.00117824 124:3.66732 125:-0.000379729 126:-0.00613966 127:-0.00509082 128:-0.00196332 129:-0.0030828 130:-0.000975222 131:4.03315 132:-0.25271",
  "0:1.16112 3:0.0333725 5:0.0348637 6:-0.00544368 8:-0.067394 9:0.174754 13:174.712 15:0.126733 17:103.154 18:0.0552075 21:0.000813525 24:0.0866784 25:0.158727 31:-25.0482 39:-0.00248894 40:0.000616053 41:-0.000579716 42:0.00295482 43:0.0847001 44:0.170147 51:2.47425e-05",
  "0:0.944846 3:-0.0308617 5:-0.0244019 6:0.00648607 8:0.0308181 9:0.0459392 13:174.712 15:0.021326 17:-356.958 19:0.000182278 21:0.000307472 24:0.0866784 25:0.158727 32:0.00383054 35:-0.00193065 36:-0.0014509 41:-0.00123493 42:0.00136736 43:0.0847001 44:0.170147 45:0.00371469 50:0.0051025 51:2.47425e-05 96:0.00368756",
  "0:1.3558 1:0.144816 3:0.0607767 5:0.0294777 6:0.07469 8:-0.0923822 9:0.0857342 13:23.8636 15:0.0771653 17:81.8751 18:0.0187736 21:0.0149667 24:0.0866784 25:0.158727 31:-367.874 32:0.00548158 43:0.0847001 44:0.170147 45:0.0122631 50:0.00817187 51:3.71617e-05 64:-0.00210826 65:-0.0031364 90:-0.0735742 91:-0.0500266 96:0.0194965",
  "0:1.04761 1:0.200165 2:0.237697 3:0.0368552 5:0.0357202 6:-0.214075 8:-0.108018 9:-0.373981 11:0.0310022 12:-0.00116305 13:-20.7596 15:0.0864502 17:97.4908 18:0.0516707 24:0.0866784 25:0.158727 31:346.193 32:0.0134297 39:-0.00348509 40:-0.000154689 43:0.0847001 44:0.170147 45:0.0147753 50:0.018932 51:3.68181e-05 52:0.013257 55:0.00359719 56:0.00744328 57:-0.00100023 58:-6505.28 60:0.0103485 61:-0.00100983 62:-0.00406916 63:-66.0864 64:-0.0171533 65:0.0110605 66:0.01203 67:-0.00520034 75:-2627.69 76:0.00713755 77:0.00417999 79:12591 83:-0.00223595 84:0.00460217 85:0.00571794 90:-0.0318353 91:-0.0235526 92:-0.0136189 96:0.0203522 97:-66.7837 98:-0.00109724 100:-0.0138821 101:0.0160468 109:0.0151574 110:-0.00054447 112:0.0728224 113:0.0659413 115:-0.00515692 118:-3703.67 121:0.0136131 122:0.00538153 124:4.76285 125:-0.0175677 126:0.0226301 128:0.0176631 129:0.00477162 131:5.39354 133:-0.0075171 136:-88.2736",
  "0:1.26376 1:-0.214304 2:-0.149984 3:0.230404 4:0.0298237 5:0.0268673 6:0.296228 7:0.02219 8:-0.0207655 9:0.452506 10:0.120105 11:0.032442 12:0.0424816 13:-9.14313 15:0.0247178 16:-0.0288229 17:81.2805 18:0.051038 19:-0.00580611 20:2.51236e-05 21:-0.0124083 24:0.0866784 25:0.158727 26:-0.034819 29:2.89885e-05 31:153.595 32:-0.0168604 34:0.0101015 39:0.000284552 40:-0.00122181 43:0.0847001 44:0.170147 45:-0.0104927 49:-0.00591313 50:-0.0230501 51:3.14758e-05 54:0.0126956 55:0.00835489 56:0.000310513 58:3421.19 59:-0.00245017 60:-0.000427154 61:0.000545152 62:0.00189896 63:28.9121 64:-0.00649973 65:-0.0193855 66:-0.0148492 68:-0.0510576 69:0.0787306 70:0.0951981 71:-14942.2 75:265.503 83:0.0063711 84:0.000324789 90:0.0614274 91:0.0100376 92:-0.000841083 96:-0.0127099 100:-0.00394077 101:-0.0128601 102:-0.00797616 121:-0.00671465 122:-0.00169799 123:0.00193772 124:3.8114 125:-0.0077929 126:-0.0182589 127:-0.012586 128:-0.0104311 129:-0.00302465 130:0.00243063 131:3.63237",
  "0:70.9557 1:-0.32674 3:-0.516829 4:-0.00171664 5:0.090931 6:-0.6715 7:-0.147771 8:-0.0927471 9:-0.230862 10:-0.15641 11:0.0134455 12:-0.119717 13:2.52151 15:-0.241582 16:0.0592939 17:4.39756 18:0.091528 19:0.00441292 21:0.00866807 24:0.0866784 25:0.158727 26:0.0974701 31:67.0217 32:-0.0013166 34:-0.0165317 37:0.0850247 38:27.7428 39:0.00498658 40:0.00615115 41:0.00950156 42:-0.0212723 43:0.0847001 44:0.170147 45:-0.0238645 49:0.0013738 50:-0.00841918 51:2.80145e-05 52:0.00712383 54:-0.0166209 55:0.000103533 56:-0.0168898 58:3645.26 60:0.00654077 61:0.00036913 62:0.000994419 63:84.2803 64:-0.0116124 65:-0.00774414 66:-0.00168844 67:0.00142809 68:-0.00192955 69:0.117225 70:-0.0241512 71:15052.1 75:1602.61 83:-0.000354403 84:-0.018727 90:0.0276439 91:0.00643207 92:-0.03543 96:-0.0280221 97:81.1228 98:-0.000675255 100:-0.0105162 101:-0.00348292 102:-0.00697321 121:-0.00145546 122:-0.013197 123:-0.00357751 124:-1.09021 125:-0.0150181 126:-0.00712841 127:-0.0066459 128:-0.0035261 129:-0.0187773 130:-0.00222432 131:-0.393895",
  "0:0.060405 1:1.57034 2:0.0299387 9:-1.51018 13:-8.6165 14:0.0126454 21:0.00550878 24:0.0866784 25:0.158727 32:0.0623881 43:0.0847001 44:0.170147 45:-0.0945934"};
static const char *const MSIS_PTL[] = {"0:1.00858 1:0.0456011 2:-0.0222972 3:-0.0544388 4:0.000523136 5:-0.0188849 6:0.0523707 7:-0.00943646 8:0.00631707 9:-0.078046 10:-0.048843 13:-7.6025 15:-0.0144635 16:-0.0176843 17:-121.517 18:0.0285647 21:0.000631792 23:0.00577197 24:0.0866784 25:0.158727 31:-8902.72 32:0.00330611 33:0.00302172 35:-0.00213673 36:-0.00032091 39:0.00276034 40:0.00282487 41:-0.000297592 42:-0.00421534 43:0.0847001 44:0.170147 45:0.00896456 47:-0.0108596 50:0.00557917 96:0.00965405 99:2",
  "0:0.939664 1:0.0856514 2:-0.00679989 3:0.0265929 4:-0.00474283 5:0.0121855 6:-0.0214905 7:0.00649651 8:-0.0205477 9:-0.0424952 13:11.9148 15:0.0118777 16:-0.072823 17:-81.5965 18:0.0173887 22:-0.0144691 23:0.000280259 24:0.0866784 25:0.158727 31:216.584 32:0.00318713 33:0.00737479 35:-0.00255018 36:-0.00392806 39:-0.00289757 40:-0.00133549 41:0.00102661 42:0.000353775 43:0.0847001 44:0.170147 45:-0.00917497 50:0.00356082 96:-0.0100902 99:2",
  "0:0.985982 1:-0.0455435 2:0.0121106 3:0.0204127 4:-0.00240836 5:0.0111383 6:-0.0451926 7:0.0135074 8:-0.00654139 9:0.115275 10:0.128247 13:-5.30705 15:-0.0379332 16:-0.0624741 17:0.771062 18:0.0296315 22:0.00681051 23:-0.00434767 24:0.0866784 25:0.158727 31:10.7003 32:-0.00276907 33:0.000432474 35:0.00131497 36:-0.000647517 38:-22.0621 39:-0.00110804 40:-0.000809338 41:0.000418184 42:0.0042965 43:0.0847001 44:0.170147 50:-0.00404337 64:-0.00095255 65:0.000856253 66:0.000433114 74:0.00121223 75:0.000238694 76:0.000915245 77:0.00128385 78:0.000867668 79:-5.61425e-06 80:1.04445 81:34.1112 83:-0.840704 84:-239.639 85:0.706668 86:-20.5873 87:-0.363696 88:23.9245 90:-0.00106657 91:-0.000767292 92:0.000154534 99:2",
  "0:1.0032 1:0.0383501 2:-0.00238983 3:0.0028395 4:0.00420956 5:0.000586619 6:0.0219054 7:-0.0100946 8:-0.00350259 9:0.0417392 10:-0.00844404 13:4.96949 15:-0.00706478 16:-0.0146494 17:31.3258 18:-0.00186493 20:-0.0167499 23:0.000512686 24:0.0866784 25:0.158727 26:-0.00464167 30:0.00437353 31:-199.069 33:-0.00534884 35:0.00162458 36:0.00293016 37:0.00267926 38:590.449 41:-0.00117266 42:-0.00035889 43:0.0847001 44:0.170147 47:0.0138673 64:0.00160571 65:0.000628078 66:5.05469e-05 74:-0.00157829 75:-0.000400855 76:5.04077e-05 77:-0.00139001 78:-0.00233406 79:-0.000481197 80:1.46758 81:6.20332 83:0.366476 84:-61.976 85:0.309198 86:-19.8999 88:-329.933 90:-0.0011008 91:-9.3931e-05 92:0.000139638 99:2"};
static const char *const MSIS_PDL[] = {"0:1.0993 1:3.90631 2:3.07165 3:0.986161 4:16.3536 5:4.6383 6:1 22:1.2884 23:0.0310302 24:0.118339",
  "0:1 1:0.7 2:1.1502 3:3.44689 4:1.2884 5:1 6:1.08738 7:1.22947 8:1.10016 9:0.734129 10:1.15241 11:2.22784 12:0.795046 13:4.01612 14:4.47749 15:123.435 16:-0.0760535 17:1.68986e-06 18:0.744294 19:1.03604 20:172.783 21:1.1502 22:3.44689 23:-0.74623 24:0.949154"};
static const char *const MSIS_PT[] = {"0:0.986573 1:0.0162228 2:0.015527 3:-0.104323 4:-0.00375801 5:-0.00118538 6:-0.124043 7:0.0045682 8:0.00876018 9:-0.136235 10:-0.0352427 11:0.00884181 12:-0.00592127 13:-8.6165 15:0.0128492 17:130.096 18:0.0104567 19:0.00165686 20:-5.53887e-06 21:0.0029781 23:0.00513122 24:0.0866784 25:0.158727 29:-7.27026e-06 31:6.74494 32:0.00493933 33:0.00221656 34:0.00250802 37:-0.0208841 38:-1.79873 39:0.00145103 40:0.000281769 41:-0.00144703 42:-5.16394e-05 43:0.0847001 44:0.170147 45:0.00572562 46:5.07493e-05 47:0.00436148 48:0.000117863 49:0.00474364 50:0.00661278 51:4.34292e-05 52:0.00144373 53:2.4147e-05 54:0.00284426 55:0.00085656 56:0.00204028 58:-3159.94 59:-0.00246423 60:0.00113843 61:0.000420512 63:-97.7214 64:0.00677794 65:0.00527499 66:0.00114936 68:-0.00661311 69:-0.0184255 70:-0.0196259 71:29861.8 75:644.574 76:0.000884668 77:0.000505066 79:4028.81 80:-0.00189503 83:0.000821407 84:0.0020678 90:-0.012041 91:-0.00363963 92:9.9207e-05 93:-0.000115284 94:-6.33059e-05 95:-0.605545 96:0.00834218 97:-91.3036 98:0.000371042 100:0.000419 101:0.00270928 102:0.00331507 103:-0.00444508 104:-0.00496334 105:-0.00160449 106:0.00395119 107:0.00248924 108:0.000509815 109:0.00405302 110:0.00224076 112:0.00684256 113:0.000466354 115:-0.000368328 118:-146.87 121:0.00109501 122:0.000465156 123:0.000562583 124:3.21596 125:0.000643168 126:0.0031486 127:0.00340738 128:0.00178481 129:0.000962532 130:0.000558171 131:3.43731 132:-0.233195 133:0.000510289 136:-92534.7 138:-0.00199639"};
static const char *const MSIS_PS[] = {"0:0.956827 1:0.0620637 2:0.0318433 5:0.03949 8:-0.00924882 9:-0.00794023 13:174.712 21:0.00274677 23:0.0154951 24:0.0866784 25:0.158727 33:-0.000699007 41:0.0124362 42:-0.00528756 43:0.0847001 44:0.170147 51:2.47425e-05"};
