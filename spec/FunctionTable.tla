--------------------------- MODULE FunctionTable ---------------------------
(* Generated by tools/gen_function_table.py: function values in units of 1e-5; <<>>: not used.                      *)
EXTENDS Integers
(* Real functions at k/8 for k = -40..40 *)
RealTable == [
  abs |-> <<<<500000, 0>>, <<487500, 0>>, <<475000, 0>>, <<462500, 0>>, <<450000, 0>>, <<437500, 0>>, <<425000, 0>>, <<412500, 0>>, <<400000, 0>>, <<387500, 0>>, <<375000, 0>>, <<362500, 0>>, <<350000, 0>>, <<337500, 0>>, <<325000, 0>>, <<312500, 0>>, <<300000, 0>>, <<287500, 0>>, <<275000, 0>>, <<262500, 0>>, <<250000, 0>>, <<237500, 0>>, <<225000, 0>>, <<212500, 0>>, <<200000, 0>>, <<187500, 0>>, <<175000, 0>>, <<162500, 0>>, <<150000, 0>>, <<137500, 0>>, <<125000, 0>>, <<112500, 0>>, <<100000, 0>>, <<87500, 0>>, <<75000, 0>>, <<62500, 0>>, <<50000, 0>>, <<37500, 0>>, <<25000, 0>>, <<12500, 0>>, <<0, 0>>, <<12500, 0>>, <<25000, 0>>, <<37500, 0>>, <<50000, 0>>, <<62500, 0>>, <<75000, 0>>, <<87500, 0>>, <<100000, 0>>, <<112500, 0>>, <<125000, 0>>, <<137500, 0>>, <<150000, 0>>, <<162500, 0>>, <<175000, 0>>, <<187500, 0>>, <<200000, 0>>, <<212500, 0>>, <<225000, 0>>, <<237500, 0>>, <<250000, 0>>, <<262500, 0>>, <<275000, 0>>, <<287500, 0>>, <<300000, 0>>, <<312500, 0>>, <<325000, 0>>, <<337500, 0>>, <<350000, 0>>, <<362500, 0>>, <<375000, 0>>, <<387500, 0>>, <<400000, 0>>, <<412500, 0>>, <<425000, 0>>, <<437500, 0>>, <<450000, 0>>, <<462500, 0>>, <<475000, 0>>, <<487500, 0>>, <<500000, 0>>>>,
  arg |-> <<<<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<314159, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>,
  real |-> <<<<-500000, 0>>, <<-487500, 0>>, <<-475000, 0>>, <<-462500, 0>>, <<-450000, 0>>, <<-437500, 0>>, <<-425000, 0>>, <<-412500, 0>>, <<-400000, 0>>, <<-387500, 0>>, <<-375000, 0>>, <<-362500, 0>>, <<-350000, 0>>, <<-337500, 0>>, <<-325000, 0>>, <<-312500, 0>>, <<-300000, 0>>, <<-287500, 0>>, <<-275000, 0>>, <<-262500, 0>>, <<-250000, 0>>, <<-237500, 0>>, <<-225000, 0>>, <<-212500, 0>>, <<-200000, 0>>, <<-187500, 0>>, <<-175000, 0>>, <<-162500, 0>>, <<-150000, 0>>, <<-137500, 0>>, <<-125000, 0>>, <<-112500, 0>>, <<-100000, 0>>, <<-87500, 0>>, <<-75000, 0>>, <<-62500, 0>>, <<-50000, 0>>, <<-37500, 0>>, <<-25000, 0>>, <<-12500, 0>>, <<0, 0>>, <<12500, 0>>, <<25000, 0>>, <<37500, 0>>, <<50000, 0>>, <<62500, 0>>, <<75000, 0>>, <<87500, 0>>, <<100000, 0>>, <<112500, 0>>, <<125000, 0>>, <<137500, 0>>, <<150000, 0>>, <<162500, 0>>, <<175000, 0>>, <<187500, 0>>, <<200000, 0>>, <<212500, 0>>, <<225000, 0>>, <<237500, 0>>, <<250000, 0>>, <<262500, 0>>, <<275000, 0>>, <<287500, 0>>, <<300000, 0>>, <<312500, 0>>, <<325000, 0>>, <<337500, 0>>, <<350000, 0>>, <<362500, 0>>, <<375000, 0>>, <<387500, 0>>, <<400000, 0>>, <<412500, 0>>, <<425000, 0>>, <<437500, 0>>, <<450000, 0>>, <<462500, 0>>, <<475000, 0>>, <<487500, 0>>, <<500000, 0>>>>,
  imag |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>,
  conj |-> <<<<-500000, 0>>, <<-487500, 0>>, <<-475000, 0>>, <<-462500, 0>>, <<-450000, 0>>, <<-437500, 0>>, <<-425000, 0>>, <<-412500, 0>>, <<-400000, 0>>, <<-387500, 0>>, <<-375000, 0>>, <<-362500, 0>>, <<-350000, 0>>, <<-337500, 0>>, <<-325000, 0>>, <<-312500, 0>>, <<-300000, 0>>, <<-287500, 0>>, <<-275000, 0>>, <<-262500, 0>>, <<-250000, 0>>, <<-237500, 0>>, <<-225000, 0>>, <<-212500, 0>>, <<-200000, 0>>, <<-187500, 0>>, <<-175000, 0>>, <<-162500, 0>>, <<-150000, 0>>, <<-137500, 0>>, <<-125000, 0>>, <<-112500, 0>>, <<-100000, 0>>, <<-87500, 0>>, <<-75000, 0>>, <<-62500, 0>>, <<-50000, 0>>, <<-37500, 0>>, <<-25000, 0>>, <<-12500, 0>>, <<0, 0>>, <<12500, 0>>, <<25000, 0>>, <<37500, 0>>, <<50000, 0>>, <<62500, 0>>, <<75000, 0>>, <<87500, 0>>, <<100000, 0>>, <<112500, 0>>, <<125000, 0>>, <<137500, 0>>, <<150000, 0>>, <<162500, 0>>, <<175000, 0>>, <<187500, 0>>, <<200000, 0>>, <<212500, 0>>, <<225000, 0>>, <<237500, 0>>, <<250000, 0>>, <<262500, 0>>, <<275000, 0>>, <<287500, 0>>, <<300000, 0>>, <<312500, 0>>, <<325000, 0>>, <<337500, 0>>, <<350000, 0>>, <<362500, 0>>, <<375000, 0>>, <<387500, 0>>, <<400000, 0>>, <<412500, 0>>, <<425000, 0>>, <<437500, 0>>, <<450000, 0>>, <<462500, 0>>, <<475000, 0>>, <<487500, 0>>, <<500000, 0>>>>,
  log |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<-207944, 0>>, <<-138629, 0>>, <<-98083, 0>>, <<-69315, 0>>, <<-47000, 0>>, <<-28768, 0>>, <<-13353, 0>>, <<0, 0>>, <<11778, 0>>, <<22314, 0>>, <<31845, 0>>, <<40547, 0>>, <<48551, 0>>, <<55962, 0>>, <<62861, 0>>, <<69315, 0>>, <<75377, 0>>, <<81093, 0>>, <<86500, 0>>, <<91629, 0>>, <<96508, 0>>, <<101160, 0>>, <<105605, 0>>, <<109861, 0>>, <<113943, 0>>, <<117865, 0>>, <<121640, 0>>, <<125276, 0>>, <<128785, 0>>, <<132176, 0>>, <<135455, 0>>, <<138629, 0>>, <<141707, 0>>, <<144692, 0>>, <<147591, 0>>, <<150408, 0>>, <<153148, 0>>, <<155814, 0>>, <<158412, 0>>, <<160944, 0>>>>,
  log2 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<-300000, 0>>, <<-200000, 0>>, <<-141504, 0>>, <<-100000, 0>>, <<-67807, 0>>, <<-41504, 0>>, <<-19265, 0>>, <<0, 0>>, <<16993, 0>>, <<32193, 0>>, <<45943, 0>>, <<58496, 0>>, <<70044, 0>>, <<80735, 0>>, <<90689, 0>>, <<100000, 0>>, <<108746, 0>>, <<116993, 0>>, <<124793, 0>>, <<132193, 0>>, <<139232, 0>>, <<145943, 0>>, <<152356, 0>>, <<158496, 0>>, <<164386, 0>>, <<170044, 0>>, <<175489, 0>>, <<180735, 0>>, <<185798, 0>>, <<190689, 0>>, <<195420, 0>>, <<200000, 0>>, <<204439, 0>>, <<208746, 0>>, <<212928, 0>>, <<216993, 0>>, <<220945, 0>>, <<224793, 0>>, <<228540, 0>>, <<232193, 0>>>>,
  log10 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<-90309, 0>>, <<-60206, 0>>, <<-42597, 0>>, <<-30103, 0>>, <<-20412, 0>>, <<-12494, 0>>, <<-5799, 0>>, <<0, 0>>, <<5115, 0>>, <<9691, 0>>, <<13830, 0>>, <<17609, 0>>, <<21085, 0>>, <<24304, 0>>, <<27300, 0>>, <<30103, 0>>, <<32736, 0>>, <<35218, 0>>, <<37566, 0>>, <<39794, 0>>, <<41913, 0>>, <<43933, 0>>, <<45864, 0>>, <<47712, 0>>, <<49485, 0>>, <<51188, 0>>, <<52827, 0>>, <<54407, 0>>, <<55931, 0>>, <<57403, 0>>, <<58827, 0>>, <<60206, 0>>, <<61542, 0>>, <<62839, 0>>, <<64098, 0>>, <<65321, 0>>, <<66511, 0>>, <<67669, 0>>, <<68797, 0>>, <<69897, 0>>>>,
  exp |-> <<<<674, 0>>, <<764, 0>>, <<865, 0>>, <<980, 0>>, <<1111, 0>>, <<1259, 0>>, <<1426, 0>>, <<1616, 0>>, <<1832, 0>>, <<2075, 0>>, <<2352, 0>>, <<2665, 0>>, <<3020, 0>>, <<3422, 0>>, <<3877, 0>>, <<4394, 0>>, <<4979, 0>>, <<5642, 0>>, <<6393, 0>>, <<7244, 0>>, <<8208, 0>>, <<9301, 0>>, <<10540, 0>>, <<11943, 0>>, <<13534, 0>>, <<15335, 0>>, <<17377, 0>>, <<19691, 0>>, <<22313, 0>>, <<25284, 0>>, <<28650, 0>>, <<32465, 0>>, <<36788, 0>>, <<41686, 0>>, <<47237, 0>>, <<53526, 0>>, <<60653, 0>>, <<68729, 0>>, <<77880, 0>>, <<88250, 0>>, <<100000, 0>>, <<113315, 0>>, <<128403, 0>>, <<145499, 0>>, <<164872, 0>>, <<186825, 0>>, <<211700, 0>>, <<239888, 0>>, <<271828, 0>>, <<308022, 0>>, <<349034, 0>>, <<395508, 0>>, <<448169, 0>>, <<507842, 0>>, <<575460, 0>>, <<652082, 0>>, <<738906, 0>>, <<837290, 0>>, <<948774, 0>>, <<1075101, 0>>, <<1218249, 0>>, <<1380457, 0>>, <<1564263, 0>>, <<1772542, 0>>, <<2008554, 0>>, <<2275990, 0>>, <<2579034, 0>>, <<2922428, 0>>, <<3311545, 0>>, <<3752472, 0>>, <<4252108, 0>>, <<4818270, 0>>, <<5459815, 0>>, <<6186781, 0>>, <<7010541, 0>>, <<7943984, 0>>, <<9001713, 0>>, <<10200277, 0>>, <<11558428, 0>>, <<13097415, 0>>, <<14841316, 0>>>>,
  sqrt |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<0, 0>>, <<35355, 0>>, <<50000, 0>>, <<61237, 0>>, <<70711, 0>>, <<79057, 0>>, <<86603, 0>>, <<93541, 0>>, <<100000, 0>>, <<106066, 0>>, <<111803, 0>>, <<117260, 0>>, <<122474, 0>>, <<127475, 0>>, <<132288, 0>>, <<136931, 0>>, <<141421, 0>>, <<145774, 0>>, <<150000, 0>>, <<154110, 0>>, <<158114, 0>>, <<162019, 0>>, <<165831, 0>>, <<169558, 0>>, <<173205, 0>>, <<176777, 0>>, <<180278, 0>>, <<183712, 0>>, <<187083, 0>>, <<190394, 0>>, <<193649, 0>>, <<196850, 0>>, <<200000, 0>>, <<203101, 0>>, <<206155, 0>>, <<209165, 0>>, <<212132, 0>>, <<215058, 0>>, <<217945, 0>>, <<220794, 0>>, <<223607, 0>>>>,
  cbrt |-> <<<<-170998, 0>>, <<-169561, 0>>, <<-168099, 0>>, <<-166611, 0>>, <<-165096, 0>>, <<-163553, 0>>, <<-161981, 0>>, <<-160377, 0>>, <<-158740, 0>>, <<-157069, 0>>, <<-155362, 0>>, <<-153616, 0>>, <<-151829, 0>>, <<-150000, 0>>, <<-148125, 0>>, <<-146201, 0>>, <<-144225, 0>>, <<-142193, 0>>, <<-140102, 0>>, <<-137946, 0>>, <<-135721, 0>>, <<-133420, 0>>, <<-131037, 0>>, <<-128564, 0>>, <<-125992, 0>>, <<-123311, 0>>, <<-120507, 0>>, <<-117567, 0>>, <<-114471, 0>>, <<-111199, 0>>, <<-107722, 0>>, <<-104004, 0>>, <<-100000, 0>>, <<-95647, 0>>, <<-90856, 0>>, <<-85499, 0>>, <<-79370, 0>>, <<-72112, 0>>, <<-62996, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<62996, 0>>, <<72112, 0>>, <<79370, 0>>, <<85499, 0>>, <<90856, 0>>, <<95647, 0>>, <<100000, 0>>, <<104004, 0>>, <<107722, 0>>, <<111199, 0>>, <<114471, 0>>, <<117567, 0>>, <<120507, 0>>, <<123311, 0>>, <<125992, 0>>, <<128564, 0>>, <<131037, 0>>, <<133420, 0>>, <<135721, 0>>, <<137946, 0>>, <<140102, 0>>, <<142193, 0>>, <<144225, 0>>, <<146201, 0>>, <<148125, 0>>, <<150000, 0>>, <<151829, 0>>, <<153616, 0>>, <<155362, 0>>, <<157069, 0>>, <<158740, 0>>, <<160377, 0>>, <<161981, 0>>, <<163553, 0>>, <<165096, 0>>, <<166611, 0>>, <<168099, 0>>, <<169561, 0>>, <<170998, 0>>>>,
  sin |-> <<<<95892, 0>>, <<98681, 0>>, <<99929, 0>>, <<99618, 0>>, <<97753, 0>>, <<94362, 0>>, <<89499, 0>>, <<83239, 0>>, <<75680, 0>>, <<66940, 0>>, <<57156, 0>>, <<46480, 0>>, <<35078, 0>>, <<23129, 0>>, <<10820, 0>>, <<-1659, 0>>, <<-14112, 0>>, <<-26345, 0>>, <<-38166, 0>>, <<-49392, 0>>, <<-59847, 0>>, <<-69369, 0>>, <<-77807, 0>>, <<-85032, 0>>, <<-90930, 0>>, <<-95409, 0>>, <<-98399, 0>>, <<-99853, 0>>, <<-99749, 0>>, <<-98089, 0>>, <<-94898, 0>>, <<-90227, 0>>, <<-84147, 0>>, <<-76754, 0>>, <<-68164, 0>>, <<-58510, 0>>, <<-47943, 0>>, <<-36627, 0>>, <<-24740, 0>>, <<-12467, 0>>, <<0, 0>>, <<12467, 0>>, <<24740, 0>>, <<36627, 0>>, <<47943, 0>>, <<58510, 0>>, <<68164, 0>>, <<76754, 0>>, <<84147, 0>>, <<90227, 0>>, <<94898, 0>>, <<98089, 0>>, <<99749, 0>>, <<99853, 0>>, <<98399, 0>>, <<95409, 0>>, <<90930, 0>>, <<85032, 0>>, <<77807, 0>>, <<69369, 0>>, <<59847, 0>>, <<49392, 0>>, <<38166, 0>>, <<26345, 0>>, <<14112, 0>>, <<1659, 0>>, <<-10820, 0>>, <<-23129, 0>>, <<-35078, 0>>, <<-46480, 0>>, <<-57156, 0>>, <<-66940, 0>>, <<-75680, 0>>, <<-83239, 0>>, <<-89499, 0>>, <<-94362, 0>>, <<-97753, 0>>, <<-99618, 0>>, <<-99929, 0>>, <<-98681, 0>>, <<-95892, 0>>>>,
  cos |-> <<<<28366, 0>>, <<16190, 0>>, <<3760, 0>>, <<-8728, 0>>, <<-21080, 0>>, <<-33102, 0>>, <<-44609, 0>>, <<-55419, 0>>, <<-65364, 0>>, <<-74290, 0>>, <<-82056, 0>>, <<-88542, 0>>, <<-93646, 0>>, <<-97288, 0>>, <<-99413, 0>>, <<-99986, 0>>, <<-98999, 0>>, <<-96467, 0>>, <<-92430, 0>>, <<-86951, 0>>, <<-80114, 0>>, <<-72028, 0>>, <<-62817, 0>>, <<-52627, 0>>, <<-41615, 0>>, <<-29953, 0>>, <<-17825, 0>>, <<-5418, 0>>, <<7074, 0>>, <<19455, 0>>, <<31532, 0>>, <<43118, 0>>, <<54030, 0>>, <<64100, 0>>, <<73169, 0>>, <<81096, 0>>, <<87758, 0>>, <<93051, 0>>, <<96891, 0>>, <<99220, 0>>, <<100000, 0>>, <<99220, 0>>, <<96891, 0>>, <<93051, 0>>, <<87758, 0>>, <<81096, 0>>, <<73169, 0>>, <<64100, 0>>, <<54030, 0>>, <<43118, 0>>, <<31532, 0>>, <<19455, 0>>, <<7074, 0>>, <<-5418, 0>>, <<-17825, 0>>, <<-29953, 0>>, <<-41615, 0>>, <<-52627, 0>>, <<-62817, 0>>, <<-72028, 0>>, <<-80114, 0>>, <<-86951, 0>>, <<-92430, 0>>, <<-96467, 0>>, <<-98999, 0>>, <<-99986, 0>>, <<-99413, 0>>, <<-97288, 0>>, <<-93646, 0>>, <<-88542, 0>>, <<-82056, 0>>, <<-74290, 0>>, <<-65364, 0>>, <<-55419, 0>>, <<-44609, 0>>, <<-33102, 0>>, <<-21080, 0>>, <<-8728, 0>>, <<3760, 0>>, <<16190, 0>>, <<28366, 0>>>>,
  tan |-> <<<<338052, 0>>, <<609535, 0>>, <<2657541, 0>>, <<-1141395, 0>>, <<-463733, 0>>, <<-285061, 0>>, <<-200631, 0>>, <<-150200, 0>>, <<-115782, 0>>, <<-90107, 0>>, <<-69655, 0>>, <<-52495, 0>>, <<-37459, 0>>, <<-23774, 0>>, <<-10883, 0>>, <<1659, 0>>, <<14255, 0>>, <<27309, 0>>, <<41292, 0>>, <<56805, 0>>, <<74702, 0>>, <<96308, 0>>, <<123863, 0>>, <<161576, 0>>, <<218504, 0>>, <<318524, 0>>, <<552038, 0>>, <<1843086, 0>>, <<-1410142, 0>>, <<-504192, 0>>, <<-300957, 0>>, <<-209257, 0>>, <<-155741, 0>>, <<-119742, 0>>, <<-93160, 0>>, <<-72148, 0>>, <<-54630, 0>>, <<-39363, 0>>, <<-25534, 0>>, <<-12566, 0>>, <<0, 0>>, <<12566, 0>>, <<25534, 0>>, <<39363, 0>>, <<54630, 0>>, <<72148, 0>>, <<93160, 0>>, <<119742, 0>>, <<155741, 0>>, <<209257, 0>>, <<300957, 0>>, <<504192, 0>>, <<1410142, 0>>, <<-1843086, 0>>, <<-552038, 0>>, <<-318524, 0>>, <<-218504, 0>>, <<-161576, 0>>, <<-123863, 0>>, <<-96308, 0>>, <<-74702, 0>>, <<-56805, 0>>, <<-41292, 0>>, <<-27309, 0>>, <<-14255, 0>>, <<-1659, 0>>, <<10883, 0>>, <<23774, 0>>, <<37459, 0>>, <<52495, 0>>, <<69655, 0>>, <<90107, 0>>, <<115782, 0>>, <<150200, 0>>, <<200631, 0>>, <<285061, 0>>, <<463733, 0>>, <<1141395, 0>>, <<-2657541, 0>>, <<-609535, 0>>, <<-338052, 0>>>>,
  asin |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<-157080, 0>>, <<-106544, 0>>, <<-84806, 0>>, <<-67513, 0>>, <<-52360, 0>>, <<-38440, 0>>, <<-25268, 0>>, <<-12533, 0>>, <<0, 0>>, <<12533, 0>>, <<25268, 0>>, <<38440, 0>>, <<52360, 0>>, <<67513, 0>>, <<84806, 0>>, <<106544, 0>>, <<157080, 0>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>,
  acos |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<314159, 0>>, <<263623, 0>>, <<241886, 0>>, <<224593, 0>>, <<209440, 0>>, <<195519, 0>>, <<182348, 0>>, <<169612, 0>>, <<157080, 0>>, <<144547, 0>>, <<131812, 0>>, <<118640, 0>>, <<104720, 0>>, <<89566, 0>>, <<72273, 0>>, <<50536, 0>>, <<0, 0>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>,
  atan |-> <<<<-137340, 0>>, <<-136847, 0>>, <<-136330, 0>>, <<-135786, 0>>, <<-135213, 0>>, <<-134609, 0>>, <<-133971, 0>>, <<-133296, 0>>, <<-132582, 0>>, <<-131824, 0>>, <<-131019, 0>>, <<-130163, 0>>, <<-129250, 0>>, <<-128274, 0>>, <<-127230, 0>>, <<-126109, 0>>, <<-124905, 0>>, <<-123606, 0>>, <<-122203, 0>>, <<-120682, 0>>, <<-119029, 0>>, <<-117227, 0>>, <<-115257, 0>>, <<-113095, 0>>, <<-110715, 0>>, <<-108084, 0>>, <<-105165, 0>>, <<-101914, 0>>, <<-98279, 0>>, <<-94200, 0>>, <<-89606, 0>>, <<-84415, 0>>, <<-78540, 0>>, <<-71883, 0>>, <<-64350, 0>>, <<-55860, 0>>, <<-46365, 0>>, <<-35877, 0>>, <<-24498, 0>>, <<-12435, 0>>, <<0, 0>>, <<12435, 0>>, <<24498, 0>>, <<35877, 0>>, <<46365, 0>>, <<55860, 0>>, <<64350, 0>>, <<71883, 0>>, <<78540, 0>>, <<84415, 0>>, <<89606, 0>>, <<94200, 0>>, <<98279, 0>>, <<101914, 0>>, <<105165, 0>>, <<108084, 0>>, <<110715, 0>>, <<113095, 0>>, <<115257, 0>>, <<117227, 0>>, <<119029, 0>>, <<120682, 0>>, <<122203, 0>>, <<123606, 0>>, <<124905, 0>>, <<126109, 0>>, <<127230, 0>>, <<128274, 0>>, <<129250, 0>>, <<130163, 0>>, <<131019, 0>>, <<131824, 0>>, <<132582, 0>>, <<133296, 0>>, <<133971, 0>>, <<134609, 0>>, <<135213, 0>>, <<135786, 0>>, <<136330, 0>>, <<136847, 0>>, <<137340, 0>>>>,
  sinh |-> <<<<-7420321, 0>>, <<-6548326, 0>>, <<-5778782, 0>>, <<-5099648, 0>>, <<-4500301, 0>>, <<-3971363, 0>>, <<-3504557, 0>>, <<-3092582, 0>>, <<-2728992, 0>>, <<-2408097, 0>>, <<-2124878, 0>>, <<-1874904, 0>>, <<-1654263, 0>>, <<-1459503, 0>>, <<-1287578, 0>>, <<-1135798, 0>>, <<-1001787, 0>>, <<-883450, 0>>, <<-778935, 0>>, <<-686607, 0>>, <<-605020, 0>>, <<-532900, 0>>, <<-469117, 0>>, <<-412673, 0>>, <<-362686, 0>>, <<-318373, 0>>, <<-279041, 0>>, <<-244075, 0>>, <<-212928, 0>>, <<-185112, 0>>, <<-160192, 0>>, <<-137778, 0>>, <<-117520, 0>>, <<-99101, 0>>, <<-82232, 0>>, <<-66649, 0>>, <<-52110, 0>>, <<-38385, 0>>, <<-25261, 0>>, <<-12533, 0>>, <<0, 0>>, <<12533, 0>>, <<25261, 0>>, <<38385, 0>>, <<52110, 0>>, <<66649, 0>>, <<82232, 0>>, <<99101, 0>>, <<117520, 0>>, <<137778, 0>>, <<160192, 0>>, <<185112, 0>>, <<212928, 0>>, <<244075, 0>>, <<279041, 0>>, <<318373, 0>>, <<362686, 0>>, <<412673, 0>>, <<469117, 0>>, <<532900, 0>>, <<605020, 0>>, <<686607, 0>>, <<778935, 0>>, <<883450, 0>>, <<1001787, 0>>, <<1135798, 0>>, <<1287578, 0>>, <<1459503, 0>>, <<1654263, 0>>, <<1874904, 0>>, <<2124878, 0>>, <<2408097, 0>>, <<2728992, 0>>, <<3092582, 0>>, <<3504557, 0>>, <<3971363, 0>>, <<4500301, 0>>, <<5099648, 0>>, <<5778782, 0>>, <<6548326, 0>>, <<7420321, 0>>>>,
  cosh |-> <<<<7420995, 0>>, <<6549089, 0>>, <<5779647, 0>>, <<5100629, 0>>, <<4501412, 0>>, <<3972621, 0>>, <<3505984, 0>>, <<3094199, 0>>, <<2730823, 0>>, <<2410173, 0>>, <<2127230, 0>>, <<1877569, 0>>, <<1657282, 0>>, <<1462925, 0>>, <<1291456, 0>>, <<1140192, 0>>, <<1006766, 0>>, <<889092, 0>>, <<785328, 0>>, <<693851, 0>>, <<613229, 0>>, <<542201, 0>>, <<479657, 0>>, <<424617, 0>>, <<376220, 0>>, <<333709, 0>>, <<296419, 0>>, <<263767, 0>>, <<235241, 0>>, <<210396, 0>>, <<188842, 0>>, <<170243, 0>>, <<154308, 0>>, <<140787, 0>>, <<129468, 0>>, <<120175, 0>>, <<112763, 0>>, <<107114, 0>>, <<103141, 0>>, <<100782, 0>>, <<100000, 0>>, <<100782, 0>>, <<103141, 0>>, <<107114, 0>>, <<112763, 0>>, <<120175, 0>>, <<129468, 0>>, <<140787, 0>>, <<154308, 0>>, <<170243, 0>>, <<188842, 0>>, <<210396, 0>>, <<235241, 0>>, <<263767, 0>>, <<296419, 0>>, <<333709, 0>>, <<376220, 0>>, <<424617, 0>>, <<479657, 0>>, <<542201, 0>>, <<613229, 0>>, <<693851, 0>>, <<785328, 0>>, <<889092, 0>>, <<1006766, 0>>, <<1140192, 0>>, <<1291456, 0>>, <<1462925, 0>>, <<1657282, 0>>, <<1877569, 0>>, <<2127230, 0>>, <<2410173, 0>>, <<2730823, 0>>, <<3094199, 0>>, <<3505984, 0>>, <<3972621, 0>>, <<4501412, 0>>, <<5100629, 0>>, <<5779647, 0>>, <<6549089, 0>>, <<7420995, 0>>>>,
  tanh |-> <<<<-99991, 0>>, <<-99988, 0>>, <<-99985, 0>>, <<-99981, 0>>, <<-99975, 0>>, <<-99968, 0>>, <<-99959, 0>>, <<-99948, 0>>, <<-99933, 0>>, <<-99914, 0>>, <<-99889, 0>>, <<-99858, 0>>, <<-99818, 0>>, <<-99766, 0>>, <<-99700, 0>>, <<-99615, 0>>, <<-99505, 0>>, <<-99365, 0>>, <<-99186, 0>>, <<-98956, 0>>, <<-98661, 0>>, <<-98285, 0>>, <<-97803, 0>>, <<-97187, 0>>, <<-96403, 0>>, <<-95405, 0>>, <<-94138, 0>>, <<-92535, 0>>, <<-90515, 0>>, <<-87983, 0>>, <<-84828, 0>>, <<-80930, 0>>, <<-76159, 0>>, <<-70391, 0>>, <<-63515, 0>>, <<-55460, 0>>, <<-46212, 0>>, <<-35836, 0>>, <<-24492, 0>>, <<-12435, 0>>, <<0, 0>>, <<12435, 0>>, <<24492, 0>>, <<35836, 0>>, <<46212, 0>>, <<55460, 0>>, <<63515, 0>>, <<70391, 0>>, <<76159, 0>>, <<80930, 0>>, <<84828, 0>>, <<87983, 0>>, <<90515, 0>>, <<92535, 0>>, <<94138, 0>>, <<95405, 0>>, <<96403, 0>>, <<97187, 0>>, <<97803, 0>>, <<98285, 0>>, <<98661, 0>>, <<98956, 0>>, <<99186, 0>>, <<99365, 0>>, <<99505, 0>>, <<99615, 0>>, <<99700, 0>>, <<99766, 0>>, <<99818, 0>>, <<99858, 0>>, <<99889, 0>>, <<99914, 0>>, <<99933, 0>>, <<99948, 0>>, <<99959, 0>>, <<99968, 0>>, <<99975, 0>>, <<99981, 0>>, <<99985, 0>>, <<99988, 0>>, <<99991, 0>>>>,
  asinh |-> <<<<-231244, 0>>, <<-228762, 0>>, <<-226219, 0>>, <<-223611, 0>>, <<-220935, 0>>, <<-218187, 0>>, <<-215363, 0>>, <<-212459, 0>>, <<-209471, 0>>, <<-206394, 0>>, <<-203222, 0>>, <<-199951, 0>>, <<-196572, 0>>, <<-193080, 0>>, <<-189467, 0>>, <<-185725, 0>>, <<-181845, 0>>, <<-177816, 0>>, <<-173628, 0>>, <<-169268, 0>>, <<-164723, 0>>, <<-159978, 0>>, <<-155016, 0>>, <<-149818, 0>>, <<-144364, 0>>, <<-138629, 0>>, <<-132590, 0>>, <<-126216, 0>>, <<-119476, 0>>, <<-112336, 0>>, <<-104759, 0>>, <<-96706, 0>>, <<-88137, 0>>, <<-79017, 0>>, <<-69315, 0>>, <<-59014, 0>>, <<-48121, 0>>, <<-36672, 0>>, <<-24747, 0>>, <<-12468, 0>>, <<0, 0>>, <<12468, 0>>, <<24747, 0>>, <<36672, 0>>, <<48121, 0>>, <<59014, 0>>, <<69315, 0>>, <<79017, 0>>, <<88137, 0>>, <<96706, 0>>, <<104759, 0>>, <<112336, 0>>, <<119476, 0>>, <<126216, 0>>, <<132590, 0>>, <<138629, 0>>, <<144364, 0>>, <<149818, 0>>, <<155016, 0>>, <<159978, 0>>, <<164723, 0>>, <<169268, 0>>, <<173628, 0>>, <<177816, 0>>, <<181845, 0>>, <<185725, 0>>, <<189467, 0>>, <<193080, 0>>, <<196572, 0>>, <<199951, 0>>, <<203222, 0>>, <<206394, 0>>, <<209471, 0>>, <<212459, 0>>, <<215363, 0>>, <<218187, 0>>, <<220935, 0>>, <<223611, 0>>, <<226219, 0>>, <<228762, 0>>, <<231244, 0>>>>,
  acosh |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<0, 0>>, <<49493, 0>>, <<69315, 0>>, <<84102, 0>>, <<96242, 0>>, <<106673, 0>>, <<115881, 0>>, <<124158, 0>>, <<131696, 0>>, <<138629, 0>>, <<145057, 0>>, <<151055, 0>>, <<156680, 0>>, <<161980, 0>>, <<166992, 0>>, <<171748, 0>>, <<176275, 0>>, <<180594, 0>>, <<184725, 0>>, <<188683, 0>>, <<192485, 0>>, <<196141, 0>>, <<199663, 0>>, <<203061, 0>>, <<206344, 0>>, <<209519, 0>>, <<212593, 0>>, <<215573, 0>>, <<218464, 0>>, <<221273, 0>>, <<224002, 0>>, <<226658, 0>>, <<229243, 0>>>>,
  atanh |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<-135403, 0>>, <<-97296, 0>>, <<-73317, 0>>, <<-54931, 0>>, <<-39423, 0>>, <<-25541, 0>>, <<-12566, 0>>, <<0, 0>>, <<12566, 0>>, <<25541, 0>>, <<39423, 0>>, <<54931, 0>>, <<73317, 0>>, <<97296, 0>>, <<135403, 0>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>,
  erf |-> <<<<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-99999, 0>>, <<-99998, 0>>, <<-99995, 0>>, <<-99990, 0>>, <<-99979, 0>>, <<-99959, 0>>, <<-99922, 0>>, <<-99854, 0>>, <<-99735, 0>>, <<-99532, 0>>, <<-99199, 0>>, <<-98667, 0>>, <<-97844, 0>>, <<-96611, 0>>, <<-94817, 0>>, <<-92290, 0>>, <<-88839, 0>>, <<-84270, 0>>, <<-78408, 0>>, <<-71116, 0>>, <<-62324, 0>>, <<-52050, 0>>, <<-40412, 0>>, <<-27633, 0>>, <<-14032, 0>>, <<0, 0>>, <<14032, 0>>, <<27633, 0>>, <<40412, 0>>, <<52050, 0>>, <<62324, 0>>, <<71116, 0>>, <<78408, 0>>, <<84270, 0>>, <<88839, 0>>, <<92290, 0>>, <<94817, 0>>, <<96611, 0>>, <<97844, 0>>, <<98667, 0>>, <<99199, 0>>, <<99532, 0>>, <<99735, 0>>, <<99854, 0>>, <<99922, 0>>, <<99959, 0>>, <<99979, 0>>, <<99990, 0>>, <<99995, 0>>, <<99998, 0>>, <<99999, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>>>,
  erfc |-> <<<<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<199999, 0>>, <<199998, 0>>, <<199995, 0>>, <<199990, 0>>, <<199979, 0>>, <<199959, 0>>, <<199922, 0>>, <<199854, 0>>, <<199735, 0>>, <<199532, 0>>, <<199199, 0>>, <<198667, 0>>, <<197844, 0>>, <<196611, 0>>, <<194817, 0>>, <<192290, 0>>, <<188839, 0>>, <<184270, 0>>, <<178408, 0>>, <<171116, 0>>, <<162324, 0>>, <<152050, 0>>, <<140412, 0>>, <<127633, 0>>, <<114032, 0>>, <<100000, 0>>, <<85968, 0>>, <<72367, 0>>, <<59588, 0>>, <<47950, 0>>, <<37676, 0>>, <<28884, 0>>, <<21592, 0>>, <<15730, 0>>, <<11161, 0>>, <<7710, 0>>, <<5183, 0>>, <<3389, 0>>, <<2156, 0>>, <<1333, 0>>, <<801, 0>>, <<468, 0>>, <<265, 0>>, <<146, 0>>, <<78, 0>>, <<41, 0>>, <<21, 0>>, <<10, 0>>, <<5, 0>>, <<2, 0>>, <<1, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>,
  tgamma |-> <<<<>>, <<-8455, 0>>, <<-5639, 0>>, <<-5303, 0>>, <<-6002, 0>>, <<-7933, 0>>, <<-12618, 0>>, <<-28287, 0>>, <<>>, <<41220, 0>>, <<26787, 0>>, <<24528, 0>>, <<27009, 0>>, <<34708, 0>>, <<53625, 0>>, <<116685, 0>>, <<>>, <<-159726, 0>>, <<-100450, 0>>, <<-88913, 0>>, <<-94531, 0>>, <<-117141, 0>>, <<-174281, 0>>, <<-364642, 0>>, <<>>, <<459212, 0>>, <<276237, 0>>, <<233397, 0>>, <<236327, 0>>, <<278210, 0>>, <<392133, 0>>, <<774864, 0>>, <<>>, <<-861022, 0>>, <<-483415, 0>>, <<-379270, 0>>, <<-354491, 0>>, <<-382538, 0>>, <<-490167, 0>>, <<-871722, 0>>, <<>>, <<753394, 0>>, <<362561, 0>>, <<237044, 0>>, <<177245, 0>>, <<143452, 0>>, <<122542, 0>>, <<108965, 0>>, <<100000, 0>>, <<94174, 0>>, <<90640, 0>>, <<88891, 0>>, <<88623, 0>>, <<89657, 0>>, <<91906, 0>>, <<95345, 0>>, <<100000, 0>>, <<105946, 0>>, <<113300, 0>>, <<122226, 0>>, <<132934, 0>>, <<145693, 0>>, <<160836, 0>>, <<178771, 0>>, <<200000, 0>>, <<225135, 0>>, <<254926, 0>>, <<290286, 0>>, <<332335, 0>>, <<382445, 0>>, <<442299, 0>>, <<513967, 0>>, <<600000, 0>>, <<703548, 0>>, <<828509, 0>>, <<979715, 0>>, <<1163173, 0>>, <<1386363, 0>>, <<1658621, 0>>, <<1991622, 0>>, <<2400000, 0>>>>,
  lgamma |-> <<<<>>, <<-247038, 0>>, <<-287541, 0>>, <<-293684, 0>>, <<-281308, 0>>, <<-253409, 0>>, <<-207007, 0>>, <<-126275, 0>>, <<>>, <<-88626, 0>>, <<-131727, 0>>, <<-140537, 0>>, <<-130901, 0>>, <<-105819, 0>>, <<-62315, 0>>, <<15431, 0>>, <<>>, <<46829, 0>>, <<449, 0>>, <<-11751, 0>>, <<-5624, 0>>, <<15821, 0>>, <<55550, 0>>, <<129375, 0>>, <<>>, <<152434, 0>>, <<101609, 0>>, <<84757, 0>>, <<86005, 0>>, <<102321, 0>>, <<136643, 0>>, <<204752, 0>>, <<>>, <<215295, 0>>, <<157570, 0>>, <<133308, 0>>, <<126551, 0>>, <<134166, 0>>, <<158958, 0>>, <<216530, 0>>, <<>>, <<201942, 0>>, <<128802, 0>>, <<86307, 0>>, <<57236, 0>>, <<36083, 0>>, <<20328, 0>>, <<8586, 0>>, <<0, 0>>, <<-6002, 0>>, <<-9827, 0>>, <<-11776, 0>>, <<-12078, 0>>, <<-10917, 0>>, <<-8440, 0>>, <<-4767, 0>>, <<0, 0>>, <<5776, 0>>, <<12487, 0>>, <<20070, 0>>, <<28468, 0>>, <<37633, 0>>, <<47521, 0>>, <<58094, 0>>, <<69315, 0>>, <<81153, 0>>, <<93580, 0>>, <<106570, 0>>, <<120097, 0>>, <<134141, 0>>, <<148682, 0>>, <<163699, 0>>, <<179176, 0>>, <<195097, 0>>, <<211446, 0>>, <<228209, 0>>, <<245374, 0>>, <<262927, 0>>, <<280857, 0>>, <<299153, 0>>, <<317805, 0>>>>,
  powm2 |-> <<<<4000, 0>>, <<4208, 0>>, <<4432, 0>>, <<4675, 0>>, <<4938, 0>>, <<5224, 0>>, <<5536, 0>>, <<5877, 0>>, <<6250, 0>>, <<6660, 0>>, <<7111, 0>>, <<7610, 0>>, <<8163, 0>>, <<8779, 0>>, <<9467, 0>>, <<10240, 0>>, <<11111, 0>>, <<12098, 0>>, <<13223, 0>>, <<14512, 0>>, <<16000, 0>>, <<17729, 0>>, <<19753, 0>>, <<22145, 0>>, <<25000, 0>>, <<28444, 0>>, <<32653, 0>>, <<37870, 0>>, <<44444, 0>>, <<52893, 0>>, <<64000, 0>>, <<79012, 0>>, <<100000, 0>>, <<130612, 0>>, <<177778, 0>>, <<256000, 0>>, <<400000, 0>>, <<711111, 0>>, <<1600000, 0>>, <<6400000, 0>>, <<>>, <<6400000, 0>>, <<1600000, 0>>, <<711111, 0>>, <<400000, 0>>, <<256000, 0>>, <<177778, 0>>, <<130612, 0>>, <<100000, 0>>, <<79012, 0>>, <<64000, 0>>, <<52893, 0>>, <<44444, 0>>, <<37870, 0>>, <<32653, 0>>, <<28444, 0>>, <<25000, 0>>, <<22145, 0>>, <<19753, 0>>, <<17729, 0>>, <<16000, 0>>, <<14512, 0>>, <<13223, 0>>, <<12098, 0>>, <<11111, 0>>, <<10240, 0>>, <<9467, 0>>, <<8779, 0>>, <<8163, 0>>, <<7610, 0>>, <<7111, 0>>, <<6660, 0>>, <<6250, 0>>, <<5877, 0>>, <<5536, 0>>, <<5224, 0>>, <<4938, 0>>, <<4675, 0>>, <<4432, 0>>, <<4208, 0>>, <<4000, 0>>>>,
  powm1 |-> <<<<-20000, 0>>, <<-20513, 0>>, <<-21053, 0>>, <<-21622, 0>>, <<-22222, 0>>, <<-22857, 0>>, <<-23529, 0>>, <<-24242, 0>>, <<-25000, 0>>, <<-25806, 0>>, <<-26667, 0>>, <<-27586, 0>>, <<-28571, 0>>, <<-29630, 0>>, <<-30769, 0>>, <<-32000, 0>>, <<-33333, 0>>, <<-34783, 0>>, <<-36364, 0>>, <<-38095, 0>>, <<-40000, 0>>, <<-42105, 0>>, <<-44444, 0>>, <<-47059, 0>>, <<-50000, 0>>, <<-53333, 0>>, <<-57143, 0>>, <<-61538, 0>>, <<-66667, 0>>, <<-72727, 0>>, <<-80000, 0>>, <<-88889, 0>>, <<-100000, 0>>, <<-114286, 0>>, <<-133333, 0>>, <<-160000, 0>>, <<-200000, 0>>, <<-266667, 0>>, <<-400000, 0>>, <<-800000, 0>>, <<>>, <<800000, 0>>, <<400000, 0>>, <<266667, 0>>, <<200000, 0>>, <<160000, 0>>, <<133333, 0>>, <<114286, 0>>, <<100000, 0>>, <<88889, 0>>, <<80000, 0>>, <<72727, 0>>, <<66667, 0>>, <<61538, 0>>, <<57143, 0>>, <<53333, 0>>, <<50000, 0>>, <<47059, 0>>, <<44444, 0>>, <<42105, 0>>, <<40000, 0>>, <<38095, 0>>, <<36364, 0>>, <<34783, 0>>, <<33333, 0>>, <<32000, 0>>, <<30769, 0>>, <<29630, 0>>, <<28571, 0>>, <<27586, 0>>, <<26667, 0>>, <<25806, 0>>, <<25000, 0>>, <<24242, 0>>, <<23529, 0>>, <<22857, 0>>, <<22222, 0>>, <<21622, 0>>, <<21053, 0>>, <<20513, 0>>, <<20000, 0>>>>,
  pow0 |-> <<<<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>>>,
  pow1 |-> <<<<-500000, 0>>, <<-487500, 0>>, <<-475000, 0>>, <<-462500, 0>>, <<-450000, 0>>, <<-437500, 0>>, <<-425000, 0>>, <<-412500, 0>>, <<-400000, 0>>, <<-387500, 0>>, <<-375000, 0>>, <<-362500, 0>>, <<-350000, 0>>, <<-337500, 0>>, <<-325000, 0>>, <<-312500, 0>>, <<-300000, 0>>, <<-287500, 0>>, <<-275000, 0>>, <<-262500, 0>>, <<-250000, 0>>, <<-237500, 0>>, <<-225000, 0>>, <<-212500, 0>>, <<-200000, 0>>, <<-187500, 0>>, <<-175000, 0>>, <<-162500, 0>>, <<-150000, 0>>, <<-137500, 0>>, <<-125000, 0>>, <<-112500, 0>>, <<-100000, 0>>, <<-87500, 0>>, <<-75000, 0>>, <<-62500, 0>>, <<-50000, 0>>, <<-37500, 0>>, <<-25000, 0>>, <<-12500, 0>>, <<0, 0>>, <<12500, 0>>, <<25000, 0>>, <<37500, 0>>, <<50000, 0>>, <<62500, 0>>, <<75000, 0>>, <<87500, 0>>, <<100000, 0>>, <<112500, 0>>, <<125000, 0>>, <<137500, 0>>, <<150000, 0>>, <<162500, 0>>, <<175000, 0>>, <<187500, 0>>, <<200000, 0>>, <<212500, 0>>, <<225000, 0>>, <<237500, 0>>, <<250000, 0>>, <<262500, 0>>, <<275000, 0>>, <<287500, 0>>, <<300000, 0>>, <<312500, 0>>, <<325000, 0>>, <<337500, 0>>, <<350000, 0>>, <<362500, 0>>, <<375000, 0>>, <<387500, 0>>, <<400000, 0>>, <<412500, 0>>, <<425000, 0>>, <<437500, 0>>, <<450000, 0>>, <<462500, 0>>, <<475000, 0>>, <<487500, 0>>, <<500000, 0>>>>,
  pow2 |-> <<<<2500000, 0>>, <<2376562, 0>>, <<2256250, 0>>, <<2139062, 0>>, <<2025000, 0>>, <<1914062, 0>>, <<1806250, 0>>, <<1701562, 0>>, <<1600000, 0>>, <<1501562, 0>>, <<1406250, 0>>, <<1314062, 0>>, <<1225000, 0>>, <<1139062, 0>>, <<1056250, 0>>, <<976562, 0>>, <<900000, 0>>, <<826562, 0>>, <<756250, 0>>, <<689062, 0>>, <<625000, 0>>, <<564062, 0>>, <<506250, 0>>, <<451562, 0>>, <<400000, 0>>, <<351562, 0>>, <<306250, 0>>, <<264062, 0>>, <<225000, 0>>, <<189062, 0>>, <<156250, 0>>, <<126562, 0>>, <<100000, 0>>, <<76562, 0>>, <<56250, 0>>, <<39062, 0>>, <<25000, 0>>, <<14062, 0>>, <<6250, 0>>, <<1562, 0>>, <<0, 0>>, <<1562, 0>>, <<6250, 0>>, <<14062, 0>>, <<25000, 0>>, <<39062, 0>>, <<56250, 0>>, <<76562, 0>>, <<100000, 0>>, <<126562, 0>>, <<156250, 0>>, <<189062, 0>>, <<225000, 0>>, <<264062, 0>>, <<306250, 0>>, <<351562, 0>>, <<400000, 0>>, <<451562, 0>>, <<506250, 0>>, <<564062, 0>>, <<625000, 0>>, <<689062, 0>>, <<756250, 0>>, <<826562, 0>>, <<900000, 0>>, <<976562, 0>>, <<1056250, 0>>, <<1139062, 0>>, <<1225000, 0>>, <<1314062, 0>>, <<1406250, 0>>, <<1501562, 0>>, <<1600000, 0>>, <<1701562, 0>>, <<1806250, 0>>, <<1914062, 0>>, <<2025000, 0>>, <<2139062, 0>>, <<2256250, 0>>, <<2376562, 0>>, <<2500000, 0>>>>,
  pow3 |-> <<<<-12500000, 0>>, <<-11585742, 0>>, <<-10717188, 0>>, <<-9893164, 0>>, <<-9112500, 0>>, <<-8374023, 0>>, <<-7676562, 0>>, <<-7018945, 0>>, <<-6400000, 0>>, <<-5818555, 0>>, <<-5273438, 0>>, <<-4763477, 0>>, <<-4287500, 0>>, <<-3844336, 0>>, <<-3432812, 0>>, <<-3051758, 0>>, <<-2700000, 0>>, <<-2376367, 0>>, <<-2079688, 0>>, <<-1808789, 0>>, <<-1562500, 0>>, <<-1339648, 0>>, <<-1139062, 0>>, <<-959570, 0>>, <<-800000, 0>>, <<-659180, 0>>, <<-535938, 0>>, <<-429102, 0>>, <<-337500, 0>>, <<-259961, 0>>, <<-195312, 0>>, <<-142383, 0>>, <<-100000, 0>>, <<-66992, 0>>, <<-42188, 0>>, <<-24414, 0>>, <<-12500, 0>>, <<-5273, 0>>, <<-1562, 0>>, <<-195, 0>>, <<0, 0>>, <<195, 0>>, <<1562, 0>>, <<5273, 0>>, <<12500, 0>>, <<24414, 0>>, <<42188, 0>>, <<66992, 0>>, <<100000, 0>>, <<142383, 0>>, <<195312, 0>>, <<259961, 0>>, <<337500, 0>>, <<429102, 0>>, <<535938, 0>>, <<659180, 0>>, <<800000, 0>>, <<959570, 0>>, <<1139062, 0>>, <<1339648, 0>>, <<1562500, 0>>, <<1808789, 0>>, <<2079688, 0>>, <<2376367, 0>>, <<2700000, 0>>, <<3051758, 0>>, <<3432812, 0>>, <<3844336, 0>>, <<4287500, 0>>, <<4763477, 0>>, <<5273438, 0>>, <<5818555, 0>>, <<6400000, 0>>, <<7018945, 0>>, <<7676562, 0>>, <<8374023, 0>>, <<9112500, 0>>, <<9893164, 0>>, <<10717188, 0>>, <<11585742, 0>>, <<12500000, 0>>>>,
  pow4 |-> <<<<62500000, 0>>, <<56480493, 0>>, <<50906641, 0>>, <<45755884, 0>>, <<41006250, 0>>, <<36636353, 0>>, <<32625391, 0>>, <<28953149, 0>>, <<25600000, 0>>, <<22546899, 0>>, <<19775391, 0>>, <<17267603, 0>>, <<15006250, 0>>, <<12974634, 0>>, <<11156641, 0>>, <<9536743, 0>>, <<8100000, 0>>, <<6832056, 0>>, <<5719141, 0>>, <<4748071, 0>>, <<3906250, 0>>, <<3181665, 0>>, <<2562891, 0>>, <<2039087, 0>>, <<1600000, 0>>, <<1235962, 0>>, <<937891, 0>>, <<697290, 0>>, <<506250, 0>>, <<357446, 0>>, <<244141, 0>>, <<160181, 0>>, <<100000, 0>>, <<58618, 0>>, <<31641, 0>>, <<15259, 0>>, <<6250, 0>>, <<1978, 0>>, <<391, 0>>, <<24, 0>>, <<0, 0>>, <<24, 0>>, <<391, 0>>, <<1978, 0>>, <<6250, 0>>, <<15259, 0>>, <<31641, 0>>, <<58618, 0>>, <<100000, 0>>, <<160181, 0>>, <<244141, 0>>, <<357446, 0>>, <<506250, 0>>, <<697290, 0>>, <<937891, 0>>, <<1235962, 0>>, <<1600000, 0>>, <<2039087, 0>>, <<2562891, 0>>, <<3181665, 0>>, <<3906250, 0>>, <<4748071, 0>>, <<5719141, 0>>, <<6832056, 0>>, <<8100000, 0>>, <<9536743, 0>>, <<11156641, 0>>, <<12974634, 0>>, <<15006250, 0>>, <<17267603, 0>>, <<19775391, 0>>, <<22546899, 0>>, <<25600000, 0>>, <<28953149, 0>>, <<32625391, 0>>, <<36636353, 0>>, <<41006250, 0>>, <<45755884, 0>>, <<50906641, 0>>, <<56480493, 0>>, <<62500000, 0>>>>,
  pow5 |-> <<<<-312500000, 0>>, <<-275342404, 0>>, <<-241806543, 0>>, <<-211620963, 0>>, <<-184528125, 0>>, <<-160284042, 0>>, <<-138657910, 0>>, <<-119431741, 0>>, <<-102400000, 0>>, <<-87369235, 0>>, <<-74157715, 0>>, <<-62595059, 0>>, <<-52521875, 0>>, <<-43789389, 0>>, <<-36259082, 0>>, <<-29802322, 0>>, <<-24300000, 0>>, <<-19642160, 0>>, <<-15727637, 0>>, <<-12463687, 0>>, <<-9765625, 0>>, <<-7556454, 0>>, <<-5766504, 0>>, <<-4333060, 0>>, <<-3200000, 0>>, <<-2317429, 0>>, <<-1641309, 0>>, <<-1133096, 0>>, <<-759375, 0>>, <<-491489, 0>>, <<-305176, 0>>, <<-180203, 0>>, <<-100000, 0>>, <<-51291, 0>>, <<-23730, 0>>, <<-9537, 0>>, <<-3125, 0>>, <<-742, 0>>, <<-98, 0>>, <<-3, 0>>, <<0, 0>>, <<3, 0>>, <<98, 0>>, <<742, 0>>, <<3125, 0>>, <<9537, 0>>, <<23730, 0>>, <<51291, 0>>, <<100000, 0>>, <<180203, 0>>, <<305176, 0>>, <<491489, 0>>, <<759375, 0>>, <<1133096, 0>>, <<1641309, 0>>, <<2317429, 0>>, <<3200000, 0>>, <<4333060, 0>>, <<5766504, 0>>, <<7556454, 0>>, <<9765625, 0>>, <<12463687, 0>>, <<15727637, 0>>, <<19642160, 0>>, <<24300000, 0>>, <<29802322, 0>>, <<36259082, 0>>, <<43789389, 0>>, <<52521875, 0>>, <<62595059, 0>>, <<74157715, 0>>, <<87369235, 0>>, <<102400000, 0>>, <<119431741, 0>>, <<138657910, 0>>, <<160284042, 0>>, <<184528125, 0>>, <<211620963, 0>>, <<241806543, 0>>, <<275342404, 0>>, <<312500000, 0>>>>,
  powhm3 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<2262742, 0>>, <<800000, 0>>, <<435465, 0>>, <<282843, 0>>, <<202386, 0>>, <<153960, 0>>, <<122177, 0>>, <<100000, 0>>, <<83805, 0>>, <<71554, 0>>, <<62022, 0>>, <<54433, 0>>, <<48275, 0>>, <<43196, 0>>, <<38949, 0>>, <<35355, 0>>, <<32282, 0>>, <<29630, 0>>, <<27322, 0>>, <<25298, 0>>, <<23513, 0>>, <<21928, 0>>, <<20514, 0>>, <<19245, 0>>, <<18102, 0>>, <<17068, 0>>, <<16128, 0>>, <<15272, 0>>, <<14489, 0>>, <<13771, 0>>, <<13110, 0>>, <<12500, 0>>, <<11936, 0>>, <<11413, 0>>, <<10928, 0>>, <<10476, 0>>, <<10054, 0>>, <<9660, 0>>, <<9290, 0>>, <<8944, 0>>>>,
  powhm1 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<282843, 0>>, <<200000, 0>>, <<163299, 0>>, <<141421, 0>>, <<126491, 0>>, <<115470, 0>>, <<106904, 0>>, <<100000, 0>>, <<94281, 0>>, <<89443, 0>>, <<85280, 0>>, <<81650, 0>>, <<78446, 0>>, <<75593, 0>>, <<73030, 0>>, <<70711, 0>>, <<68599, 0>>, <<66667, 0>>, <<64889, 0>>, <<63246, 0>>, <<61721, 0>>, <<60302, 0>>, <<58977, 0>>, <<57735, 0>>, <<56569, 0>>, <<55470, 0>>, <<54433, 0>>, <<53452, 0>>, <<52523, 0>>, <<51640, 0>>, <<50800, 0>>, <<50000, 0>>, <<49237, 0>>, <<48507, 0>>, <<47809, 0>>, <<47140, 0>>, <<46499, 0>>, <<45883, 0>>, <<45291, 0>>, <<44721, 0>>>>,
  powh1 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<0, 0>>, <<35355, 0>>, <<50000, 0>>, <<61237, 0>>, <<70711, 0>>, <<79057, 0>>, <<86603, 0>>, <<93541, 0>>, <<100000, 0>>, <<106066, 0>>, <<111803, 0>>, <<117260, 0>>, <<122474, 0>>, <<127475, 0>>, <<132288, 0>>, <<136931, 0>>, <<141421, 0>>, <<145774, 0>>, <<150000, 0>>, <<154110, 0>>, <<158114, 0>>, <<162019, 0>>, <<165831, 0>>, <<169558, 0>>, <<173205, 0>>, <<176777, 0>>, <<180278, 0>>, <<183712, 0>>, <<187083, 0>>, <<190394, 0>>, <<193649, 0>>, <<196850, 0>>, <<200000, 0>>, <<203101, 0>>, <<206155, 0>>, <<209165, 0>>, <<212132, 0>>, <<215058, 0>>, <<217945, 0>>, <<220794, 0>>, <<223607, 0>>>>,
  powh3 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<0, 0>>, <<4419, 0>>, <<12500, 0>>, <<22964, 0>>, <<35355, 0>>, <<49411, 0>>, <<64952, 0>>, <<81849, 0>>, <<100000, 0>>, <<119324, 0>>, <<139754, 0>>, <<161233, 0>>, <<183712, 0>>, <<207148, 0>>, <<231503, 0>>, <<256745, 0>>, <<282843, 0>>, <<309769, 0>>, <<337500, 0>>, <<366012, 0>>, <<395285, 0>>, <<425299, 0>>, <<456036, 0>>, <<487480, 0>>, <<519615, 0>>, <<552427, 0>>, <<585902, 0>>, <<620027, 0>>, <<654790, 0>>, <<690179, 0>>, <<726184, 0>>, <<762795, 0>>, <<800000, 0>>, <<837791, 0>>, <<876160, 0>>, <<915097, 0>>, <<954594, 0>>, <<994644, 0>>, <<1035238, 0>>, <<1076371, 0>>, <<1118034, 0>>>>,
  powh5 |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<0, 0>>, <<552, 0>>, <<3125, 0>>, <<8611, 0>>, <<17678, 0>>, <<30882, 0>>, <<48714, 0>>, <<71618, 0>>, <<100000, 0>>, <<134240, 0>>, <<174693, 0>>, <<221695, 0>>, <<275568, 0>>, <<336615, 0>>, <<405131, 0>>, <<481397, 0>>, <<565685, 0>>, <<658260, 0>>, <<759375, 0>>, <<869279, 0>>, <<988212, 0>>, <<1116409, 0>>, <<1254099, 0>>, <<1401505, 0>>, <<1558846, 0>>, <<1726335, 0>>, <<1904182, 0>>, <<2092591, 0>>, <<2291765, 0>>, <<2501900, 0>>, <<2723191, 0>>, <<2955829, 0>>, <<3200000, 0>>, <<3455890, 0>>, <<3723680, 0>>, <<4003549, 0>>, <<4295674, 0>>, <<4600228, 0>>, <<4917383, 0>>, <<5247308, 0>>, <<5590170, 0>>>>]
(* Complex functions at (x + iy)/2, x = -4..4 the slower, y = -4..4 the faster *)
ComplexTable == [
  abs |-> <<<<282843, 0>>, <<250000, 0>>, <<223607, 0>>, <<206155, 0>>, <<200000, 0>>, <<206155, 0>>, <<223607, 0>>, <<250000, 0>>, <<282843, 0>>, <<250000, 0>>, <<212132, 0>>, <<180278, 0>>, <<158114, 0>>, <<150000, 0>>, <<158114, 0>>, <<180278, 0>>, <<212132, 0>>, <<250000, 0>>, <<223607, 0>>, <<180278, 0>>, <<141421, 0>>, <<111803, 0>>, <<100000, 0>>, <<111803, 0>>, <<141421, 0>>, <<180278, 0>>, <<223607, 0>>, <<206155, 0>>, <<158114, 0>>, <<111803, 0>>, <<70711, 0>>, <<50000, 0>>, <<70711, 0>>, <<111803, 0>>, <<158114, 0>>, <<206155, 0>>, <<200000, 0>>, <<150000, 0>>, <<100000, 0>>, <<50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<206155, 0>>, <<158114, 0>>, <<111803, 0>>, <<70711, 0>>, <<50000, 0>>, <<70711, 0>>, <<111803, 0>>, <<158114, 0>>, <<206155, 0>>, <<223607, 0>>, <<180278, 0>>, <<141421, 0>>, <<111803, 0>>, <<100000, 0>>, <<111803, 0>>, <<141421, 0>>, <<180278, 0>>, <<223607, 0>>, <<250000, 0>>, <<212132, 0>>, <<180278, 0>>, <<158114, 0>>, <<150000, 0>>, <<158114, 0>>, <<180278, 0>>, <<212132, 0>>, <<250000, 0>>, <<282843, 0>>, <<250000, 0>>, <<223607, 0>>, <<206155, 0>>, <<200000, 0>>, <<206155, 0>>, <<223607, 0>>, <<250000, 0>>, <<282843, 0>>>>,
  arg |-> <<<<-235619, 0>>, <<-249809, 0>>, <<-267795, 0>>, <<-289661, 0>>, <<314159, 0>>, <<289661, 0>>, <<267795, 0>>, <<249809, 0>>, <<235619, 0>>, <<-221430, 0>>, <<-235619, 0>>, <<-255359, 0>>, <<-281984, 0>>, <<314159, 0>>, <<281984, 0>>, <<255359, 0>>, <<235619, 0>>, <<221430, 0>>, <<-203444, 0>>, <<-215880, 0>>, <<-235619, 0>>, <<-267795, 0>>, <<314159, 0>>, <<267795, 0>>, <<235619, 0>>, <<215880, 0>>, <<203444, 0>>, <<-181577, 0>>, <<-189255, 0>>, <<-203444, 0>>, <<-235619, 0>>, <<314159, 0>>, <<235619, 0>>, <<203444, 0>>, <<189255, 0>>, <<181577, 0>>, <<-157080, 0>>, <<-157080, 0>>, <<-157080, 0>>, <<-157080, 0>>, <<0, 0>>, <<157080, 0>>, <<157080, 0>>, <<157080, 0>>, <<157080, 0>>, <<-132582, 0>>, <<-124905, 0>>, <<-110715, 0>>, <<-78540, 0>>, <<0, 0>>, <<78540, 0>>, <<110715, 0>>, <<124905, 0>>, <<132582, 0>>, <<-110715, 0>>, <<-98279, 0>>, <<-78540, 0>>, <<-46365, 0>>, <<0, 0>>, <<46365, 0>>, <<78540, 0>>, <<98279, 0>>, <<110715, 0>>, <<-92730, 0>>, <<-78540, 0>>, <<-58800, 0>>, <<-32175, 0>>, <<0, 0>>, <<32175, 0>>, <<58800, 0>>, <<78540, 0>>, <<92730, 0>>, <<-78540, 0>>, <<-64350, 0>>, <<-46365, 0>>, <<-24498, 0>>, <<0, 0>>, <<24498, 0>>, <<46365, 0>>, <<64350, 0>>, <<78540, 0>>>>,
  real |-> <<<<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<-50000, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<50000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<100000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<150000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>, <<200000, 0>>>>,
  imag |-> <<<<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>, <<-200000, 0>>, <<-150000, 0>>, <<-100000, 0>>, <<-50000, 0>>, <<0, 0>>, <<50000, 0>>, <<100000, 0>>, <<150000, 0>>, <<200000, 0>>>>,
  conj |-> <<<<-200000, 200000>>, <<-200000, 150000>>, <<-200000, 100000>>, <<-200000, 50000>>, <<-200000, 0>>, <<-200000, -50000>>, <<-200000, -100000>>, <<-200000, -150000>>, <<-200000, -200000>>, <<-150000, 200000>>, <<-150000, 150000>>, <<-150000, 100000>>, <<-150000, 50000>>, <<-150000, 0>>, <<-150000, -50000>>, <<-150000, -100000>>, <<-150000, -150000>>, <<-150000, -200000>>, <<-100000, 200000>>, <<-100000, 150000>>, <<-100000, 100000>>, <<-100000, 50000>>, <<-100000, 0>>, <<-100000, -50000>>, <<-100000, -100000>>, <<-100000, -150000>>, <<-100000, -200000>>, <<-50000, 200000>>, <<-50000, 150000>>, <<-50000, 100000>>, <<-50000, 50000>>, <<-50000, 0>>, <<-50000, -50000>>, <<-50000, -100000>>, <<-50000, -150000>>, <<-50000, -200000>>, <<0, 200000>>, <<0, 150000>>, <<0, 100000>>, <<0, 50000>>, <<0, 0>>, <<0, -50000>>, <<0, -100000>>, <<0, -150000>>, <<0, -200000>>, <<50000, 200000>>, <<50000, 150000>>, <<50000, 100000>>, <<50000, 50000>>, <<50000, 0>>, <<50000, -50000>>, <<50000, -100000>>, <<50000, -150000>>, <<50000, -200000>>, <<100000, 200000>>, <<100000, 150000>>, <<100000, 100000>>, <<100000, 50000>>, <<100000, 0>>, <<100000, -50000>>, <<100000, -100000>>, <<100000, -150000>>, <<100000, -200000>>, <<150000, 200000>>, <<150000, 150000>>, <<150000, 100000>>, <<150000, 50000>>, <<150000, 0>>, <<150000, -50000>>, <<150000, -100000>>, <<150000, -150000>>, <<150000, -200000>>, <<200000, 200000>>, <<200000, 150000>>, <<200000, 100000>>, <<200000, 50000>>, <<200000, 0>>, <<200000, -50000>>, <<200000, -100000>>, <<200000, -150000>>, <<200000, -200000>>>>,
  log |-> <<<<103972, -235619>>, <<91629, -249809>>, <<80472, -267795>>, <<72346, -289661>>, <<69315, 314159>>, <<72346, 289661>>, <<80472, 267795>>, <<91629, 249809>>, <<103972, 235619>>, <<91629, -221430>>, <<75204, -235619>>, <<58933, -255359>>, <<45815, -281984>>, <<40547, 314159>>, <<45815, 281984>>, <<58933, 255359>>, <<75204, 235619>>, <<91629, 221430>>, <<80472, -203444>>, <<58933, -215880>>, <<34657, -235619>>, <<11157, -267795>>, <<0, 314159>>, <<11157, 267795>>, <<34657, 235619>>, <<58933, 215880>>, <<80472, 203444>>, <<72346, -181577>>, <<45815, -189255>>, <<11157, -203444>>, <<-34657, -235619>>, <<-69315, 314159>>, <<-34657, 235619>>, <<11157, 203444>>, <<45815, 189255>>, <<72346, 181577>>, <<69315, -157080>>, <<40547, -157080>>, <<0, -157080>>, <<-69315, -157080>>, <<>>, <<-69315, 157080>>, <<0, 157080>>, <<40547, 157080>>, <<69315, 157080>>, <<72346, -132582>>, <<45815, -124905>>, <<11157, -110715>>, <<-34657, -78540>>, <<-69315, 0>>, <<-34657, 78540>>, <<11157, 110715>>, <<45815, 124905>>, <<72346, 132582>>, <<80472, -110715>>, <<58933, -98279>>, <<34657, -78540>>, <<11157, -46365>>, <<0, 0>>, <<11157, 46365>>, <<34657, 78540>>, <<58933, 98279>>, <<80472, 110715>>, <<91629, -92730>>, <<75204, -78540>>, <<58933, -58800>>, <<45815, -32175>>, <<40547, 0>>, <<45815, 32175>>, <<58933, 58800>>, <<75204, 78540>>, <<91629, 92730>>, <<103972, -78540>>, <<91629, -64350>>, <<80472, -46365>>, <<72346, -24498>>, <<69315, 0>>, <<72346, 24498>>, <<80472, 46365>>, <<91629, 64350>>, <<103972, 78540>>>>,
  log10 |-> <<<<45154, -102328>>, <<39794, -108491>>, <<34949, -116302>>, <<31419, -125798>>, <<30103, 136438>>, <<31419, 125798>>, <<34949, 116302>>, <<39794, 108491>>, <<45154, 102328>>, <<39794, -96166>>, <<32661, -102328>>, <<25594, -110901>>, <<19897, -122464>>, <<17609, 136438>>, <<19897, 122464>>, <<25594, 110901>>, <<32661, 102328>>, <<39794, 96166>>, <<34949, -88355>>, <<25594, -93755>>, <<15051, -102328>>, <<4846, -116302>>, <<0, 136438>>, <<4846, 116302>>, <<15051, 102328>>, <<25594, 93755>>, <<34949, 88355>>, <<31419, -78858>>, <<19897, -82192>>, <<4846, -88355>>, <<-15051, -102328>>, <<-30103, 136438>>, <<-15051, 102328>>, <<4846, 88355>>, <<19897, 82192>>, <<31419, 78858>>, <<30103, -68219>>, <<17609, -68219>>, <<0, -68219>>, <<-30103, -68219>>, <<>>, <<-30103, 68219>>, <<0, 68219>>, <<17609, 68219>>, <<30103, 68219>>, <<31419, -57580>>, <<19897, -54245>>, <<4846, -48083>>, <<-15051, -34109>>, <<-30103, 0>>, <<-15051, 34109>>, <<4846, 48083>>, <<19897, 54245>>, <<31419, 57580>>, <<34949, -48083>>, <<25594, -42682>>, <<15051, -34109>>, <<4846, -20136>>, <<0, 0>>, <<4846, 20136>>, <<15051, 34109>>, <<25594, 42682>>, <<34949, 48083>>, <<39794, -40272>>, <<32661, -34109>>, <<25594, -25537>>, <<19897, -13973>>, <<17609, 0>>, <<19897, 13973>>, <<25594, 25537>>, <<32661, 34109>>, <<39794, 40272>>, <<45154, -34109>>, <<39794, -27947>>, <<34949, -20136>>, <<31419, -10639>>, <<30103, 0>>, <<31419, 10639>>, <<34949, 20136>>, <<39794, 27947>>, <<45154, 34109>>>>,
  exp |-> <<<<-5632, -12306>>, <<957, -13500>>, <<7312, -11388>>, <<11877, -6488>>, <<13534, 0>>, <<11877, 6488>>, <<7312, 11388>>, <<957, 13500>>, <<-5632, 12306>>, <<-9285, -20289>>, <<1578, -22257>>, <<12056, -18776>>, <<19582, -10697>>, <<22313, 0>>, <<19582, 10697>>, <<12056, 18776>>, <<1578, 22257>>, <<-9285, 20289>>, <<-15309, -33451>>, <<2602, -36696>>, <<19877, -30956>>, <<32284, -17637>>, <<36788, 0>>, <<32284, 17637>>, <<19877, 30956>>, <<2602, 36696>>, <<-15309, 33451>>, <<-25241, -55152>>, <<4290, -60501>>, <<32771, -51038>>, <<53228, -29079>>, <<60653, 0>>, <<53228, 29079>>, <<32771, 51038>>, <<4290, 60501>>, <<-25241, 55152>>, <<-41615, -90930>>, <<7074, -99749>>, <<54030, -84147>>, <<87758, -47943>>, <<100000, 0>>, <<87758, 47943>>, <<54030, 84147>>, <<7074, 99749>>, <<-41615, 90930>>, <<-68611, -149918>>, <<11663, -164459>>, <<89081, -138735>>, <<144689, -79044>>, <<164872, 0>>, <<144689, 79044>>, <<89081, 138735>>, <<11663, 164459>>, <<-68611, 149918>>, <<-113120, -247173>>, <<19228, -271147>>, <<146869, -228736>>, <<238552, -130321>>, <<271828, 0>>, <<238552, 130321>>, <<146869, 228736>>, <<19228, 271147>>, <<-113120, 247173>>, <<-186504, -407519>>, <<31702, -447046>>, <<242147, -377121>>, <<393305, -214864>>, <<448169, 0>>, <<393305, 214864>>, <<242147, 377121>>, <<31702, 447046>>, <<-186504, 407519>>, <<-307493, -671885>>, <<52268, -737055>>, <<399232, -621768>>, <<648451, -354250>>, <<738906, 0>>, <<648451, 354250>>, <<399232, 621768>>, <<52268, 737055>>, <<-307493, 671885>>>>,
  sqrt |-> <<<<64359, -155377>>, <<50000, -150000>>, <<34356, -145535>>, <<17543, -142505>>, <<0, 141421>>, <<17543, 142505>>, <<34356, 145535>>, <<50000, 150000>>, <<64359, 155377>>, <<70711, -141421>>, <<55737, -134561>>, <<38909, -128506>>, <<20142, -124120>>, <<0, 122474>>, <<20142, 124120>>, <<38909, 128506>>, <<55737, 134561>>, <<70711, 141421>>, <<78615, -127202>>, <<63355, -118380>>, <<45509, -109868>>, <<24293, -102909>>, <<0, 100000>>, <<24293, 102909>>, <<45509, 109868>>, <<63355, 118380>>, <<78615, 127202>>, <<88362, -113171>>, <<73523, -102008>>, <<55589, -89945>>, <<32180, -77689>>, <<0, 70711>>, <<32180, 77689>>, <<55589, 89945>>, <<73523, 102008>>, <<88362, 113171>>, <<100000, -100000>>, <<86603, -86603>>, <<70711, -70711>>, <<50000, -50000>>, <<0, 0>>, <<50000, 50000>>, <<70711, 70711>>, <<86603, 86603>>, <<100000, 100000>>, <<113171, -88362>>, <<102008, -73523>>, <<89945, -55589>>, <<77689, -32180>>, <<70711, 0>>, <<77689, 32180>>, <<89945, 55589>>, <<102008, 73523>>, <<113171, 88362>>, <<127202, -78615>>, <<118380, -63355>>, <<109868, -45509>>, <<102909, -24293>>, <<100000, 0>>, <<102909, 24293>>, <<109868, 45509>>, <<118380, 63355>>, <<127202, 78615>>, <<141421, -70711>>, <<134561, -55737>>, <<128506, -38909>>, <<124120, -20142>>, <<122474, 0>>, <<124120, 20142>>, <<128506, 38909>>, <<134561, 55737>>, <<141421, 70711>>, <<155377, -64359>>, <<150000, -50000>>, <<145535, -34356>>, <<142505, -17543>>, <<141421, 0>>, <<142505, 17543>>, <<145535, 34356>>, <<150000, 50000>>, <<155377, 64359>>>>,
  sin |-> <<<<-342095, 150931>>, <<-213904, 88609>>, <<-140312, 48906>>, <<-102535, 21685>>, <<-90930, 0>>, <<-102535, -21685>>, <<-140312, -48906>>, <<-213904, -88609>>, <<-342095, -150931>>, <<-375277, -25655>>, <<-234652, -15062>>, <<-153922, -8313>>, <<-112480, -3686>>, <<-99749, 0>>, <<-112480, 3686>>, <<-153922, 8313>>, <<-234652, 15062>>, <<-375277, 25655>>, <<-316578, -195960>>, <<-197948, -115045>>, <<-129846, -63496>>, <<-94886, -28155>>, <<-84147, 0>>, <<-94886, 28155>>, <<-129846, 63496>>, <<-197948, 115045>>, <<-316578, 195960>>, <<-180369, -318287>>, <<-112781, -186862>>, <<-73979, -103134>>, <<-54061, -45730>>, <<-47943, 0>>, <<-54061, 45730>>, <<-73979, 103134>>, <<-112781, 186862>>, <<-180369, 318287>>, <<0, -362686>>, <<0, -212928>>, <<0, -117520>>, <<0, -52110>>, <<0, 0>>, <<0, 52110>>, <<0, 117520>>, <<0, 212928>>, <<0, 362686>>, <<180369, -318287>>, <<112781, -186862>>, <<73979, -103134>>, <<54061, -45730>>, <<47943, 0>>, <<54061, 45730>>, <<73979, 103134>>, <<112781, 186862>>, <<180369, 318287>>, <<316578, -195960>>, <<197948, -115045>>, <<129846, -63496>>, <<94886, -28155>>, <<84147, 0>>, <<94886, 28155>>, <<129846, 63496>>, <<197948, 115045>>, <<316578, 195960>>, <<375277, -25655>>, <<234652, -15062>>, <<153922, -8313>>, <<112480, -3686>>, <<99749, 0>>, <<112480, 3686>>, <<153922, 8313>>, <<234652, 15062>>, <<375277, 25655>>, <<342095, 150931>>, <<213904, 88609>>, <<140312, 48906>>, <<102535, 21685>>, <<90930, 0>>, <<102535, -21685>>, <<140312, -48906>>, <<213904, -88609>>, <<342095, -150931>>>>,
  cos |-> <<<<-156563, -329789>>, <<-97895, -193615>>, <<-64215, -106861>>, <<-46926, -47383>>, <<-41615, 0>>, <<-46926, 47383>>, <<-64215, 106861>>, <<-97895, 193615>>, <<-156563, 329789>>, <<26613, -361778>>, <<16640, -212395>>, <<10915, -117226>>, <<7977, -51979>>, <<7074, 0>>, <<7977, 51979>>, <<10915, 117226>>, <<16640, 212395>>, <<26613, 361778>>, <<203272, -305190>>, <<127101, -179173>>, <<83373, -98890>>, <<60926, -43849>>, <<54030, 0>>, <<60926, 43849>>, <<83373, 98890>>, <<127101, 179173>>, <<203272, 305190>>, <<330164, -173881>>, <<206443, -102083>>, <<135418, -56342>>, <<98958, -24983>>, <<87758, 0>>, <<98958, 24983>>, <<135418, 56342>>, <<206443, 102083>>, <<330164, 173881>>, <<376220, 0>>, <<235241, 0>>, <<154308, 0>>, <<112763, 0>>, <<100000, 0>>, <<112763, 0>>, <<154308, 0>>, <<235241, 0>>, <<376220, 0>>, <<330164, 173881>>, <<206443, 102083>>, <<135418, 56342>>, <<98958, 24983>>, <<87758, 0>>, <<98958, -24983>>, <<135418, -56342>>, <<206443, -102083>>, <<330164, -173881>>, <<203272, 305190>>, <<127101, 179173>>, <<83373, 98890>>, <<60926, 43849>>, <<54030, 0>>, <<60926, -43849>>, <<83373, -98890>>, <<127101, -179173>>, <<203272, -305190>>, <<26613, 361778>>, <<16640, 212395>>, <<10915, 117226>>, <<7977, 51979>>, <<7074, 0>>, <<7977, -51979>>, <<10915, -117226>>, <<16640, -212395>>, <<26613, -361778>>, <<-156563, 329789>>, <<-97895, 193615>>, <<-64215, 106861>>, <<-46926, 47383>>, <<-41615, 0>>, <<-46926, -47383>>, <<-64215, -106861>>, <<-97895, -193615>>, <<-156563, -329789>>>>,
  tan |-> <<<<2839, -102384>>, <<8039, -106414>>, <<24346, -116674>>, <<85088, -132129>>, <<218504, 0>>, <<85088, 132129>>, <<24346, 116674>>, <<8039, 106414>>, <<2839, 102384>>, <<-536, -103692>>, <<-1555, -110357>>, <<-5091, -130830>>, <<-25515, -212480>>, <<-1410142, 0>>, <<-25515, 212480>>, <<-5091, 130830>>, <<-1555, 110357>>, <<-536, 103692>>, <<-3381, -101479>>, <<-9421, -103796>>, <<-27175, -108392>>, <<-80688, -104283>>, <<-155741, 0>>, <<-80688, 104283>>, <<-27175, 108392>>, <<-9421, 103796>>, <<-3381, 101479>>, <<-3022, -97994>>, <<-7932, -94437>>, <<-19558, -84297>>, <<-40390, -56408>>, <<-54630, 0>>, <<-40390, 56408>>, <<-19558, 84297>>, <<-7932, 94437>>, <<-3022, 97994>>, <<0, -96403>>, <<0, -90515>>, <<0, -76159>>, <<0, -46212>>, <<0, 0>>, <<0, 46212>>, <<0, 76159>>, <<0, 90515>>, <<0, 96403>>, <<3022, -97994>>, <<7932, -94437>>, <<19558, -84297>>, <<40390, -56408>>, <<54630, 0>>, <<40390, 56408>>, <<19558, 84297>>, <<7932, 94437>>, <<3022, 97994>>, <<3381, -101479>>, <<9421, -103796>>, <<27175, -108392>>, <<80688, -104283>>, <<155741, 0>>, <<80688, 104283>>, <<27175, 108392>>, <<9421, 103796>>, <<3381, 101479>>, <<536, -103692>>, <<1555, -110357>>, <<5091, -130830>>, <<25515, -212480>>, <<1410142, 0>>, <<25515, 212480>>, <<5091, 130830>>, <<1555, 110357>>, <<536, 103692>>, <<-2839, -102384>>, <<-8039, -106414>>, <<-24346, -116674>>, <<-85088, -132129>>, <<-218504, 0>>, <<-85088, 132129>>, <<-24346, 116674>>, <<-8039, 106414>>, <<-2839, 102384>>>>,
  asin |-> <<<<-75425, -173432>>, <<-88777, -160041>>, <<-106344, -146935>>, <<-129304, -136180>>, <<-157080, 131696>>, <<-129304, 136180>>, <<-106344, 146935>>, <<-88777, 160041>>, <<-75425, 173432>>, <<-60651, -162249>>, <<-73040, -144973>>, <<-90638, -126048>>, <<-117116, -106931>>, <<-157080, 96242>>, <<-117116, 106931>>, <<-90638, 126048>>, <<-73040, 144973>>, <<-60651, 162249>>, <<-42708, -152857>>, <<-52360, -131696>>, <<-66624, -106128>>, <<-89591, -73286>>, <<-157080, 0>>, <<-89591, 73286>>, <<-66624, 106128>>, <<-52360, 131696>>, <<-42708, 152857>>, <<-22102, -146572>>, <<-27349, -122646>>, <<-34944, -92613>>, <<-45228, -53064>>, <<-52360, 0>>, <<-45228, 53064>>, <<-34944, 92613>>, <<-27349, 122646>>, <<-22102, 146572>>, <<0, -144364>>, <<0, -119476>>, <<0, -88137>>, <<0, -48121>>, <<0, 0>>, <<0, 48121>>, <<0, 88137>>, <<0, 119476>>, <<0, 144364>>, <<22102, -146572>>, <<27349, -122646>>, <<34944, -92613>>, <<45228, -53064>>, <<52360, 0>>, <<45228, 53064>>, <<34944, 92613>>, <<27349, 122646>>, <<22102, 146572>>, <<42708, -152857>>, <<52360, -131696>>, <<66624, -106128>>, <<89591, -73286>>, <<157080, 0>>, <<89591, 73286>>, <<66624, 106128>>, <<52360, 131696>>, <<42708, 152857>>, <<60651, -162249>>, <<73040, -144973>>, <<90638, -126048>>, <<117116, -106931>>, <<157080, 96242>>, <<117116, 106931>>, <<90638, 126048>>, <<73040, 144973>>, <<60651, 162249>>, <<75425, -173432>>, <<88777, -160041>>, <<106344, -146935>>, <<129304, -136180>>, <<157080, 131696>>, <<129304, 136180>>, <<106344, 146935>>, <<88777, 160041>>, <<75425, 173432>>>>,
  acos |-> <<<<232505, 173432>>, <<245856, 160041>>, <<263424, 146935>>, <<286384, 136180>>, <<314159, -131696>>, <<286384, -136180>>, <<263424, -146935>>, <<245856, -160041>>, <<232505, -173432>>, <<217731, 162249>>, <<230120, 144973>>, <<247717, 126048>>, <<274195, 106931>>, <<314159, -96242>>, <<274195, -106931>>, <<247717, -126048>>, <<230120, -144973>>, <<217731, -162249>>, <<199787, 152857>>, <<209440, 131696>>, <<223704, 106128>>, <<246670, 73286>>, <<314159, 0>>, <<246670, -73286>>, <<223704, -106128>>, <<209440, -131696>>, <<199787, -152857>>, <<179181, 146572>>, <<184428, 122646>>, <<192024, 92613>>, <<202307, 53064>>, <<209440, 0>>, <<202307, -53064>>, <<192024, -92613>>, <<184428, -122646>>, <<179181, -146572>>, <<157080, 144364>>, <<157080, 119476>>, <<157080, 88137>>, <<157080, 48121>>, <<157080, 0>>, <<157080, -48121>>, <<157080, -88137>>, <<157080, -119476>>, <<157080, -144364>>, <<134978, 146572>>, <<129731, 122646>>, <<122136, 92613>>, <<111852, 53064>>, <<104720, 0>>, <<111852, -53064>>, <<122136, -92613>>, <<129731, -122646>>, <<134978, -146572>>, <<114372, 152857>>, <<104720, 131696>>, <<90456, 106128>>, <<67489, 73286>>, <<0, 0>>, <<67489, -73286>>, <<90456, -106128>>, <<104720, -131696>>, <<114372, -152857>>, <<96428, 162249>>, <<84040, 144973>>, <<66442, 126048>>, <<39964, 106931>>, <<0, -96242>>, <<39964, -106931>>, <<66442, -126048>>, <<84040, -144973>>, <<96428, -162249>>, <<81655, 173432>>, <<68303, 160041>>, <<50736, 146935>>, <<27775, 136180>>, <<0, -131696>>, <<27775, -136180>>, <<50736, -146935>>, <<68303, -160041>>, <<81655, -173432>>>>,
  atan |-> <<<<-131122, -23888>>, <<-124526, -22009>>, <<-117810, -17329>>, <<-112656, -9642>>, <<-110715, 0>>, <<-112656, 9642>>, <<-117810, 17329>>, <<-124526, 22009>>, <<-131122, 23888>>, <<-131122, -31043>>, <<-121648, -30594>>, <<-110715, -25541>>, <<-101722, -14695>>, <<-98279, 0>>, <<-101722, 14695>>, <<-110715, 25541>>, <<-121648, 30594>>, <<-131122, 31043>>, <<-133897, -40236>>, <<-120748, -43946>>, <<-101722, -40236>>, <<-84758, -23888>>, <<-78540, 0>>, <<-84758, 23888>>, <<-101722, 40236>>, <<-120748, 43946>>, <<-133897, 40236>>, <<-142155, -50037>>, <<-127680, -64124>>, <<-90789, -70830>>, <<-55357, -40236>>, <<-46365, 0>>, <<-55357, 40236>>, <<-90789, 70830>>, <<-127680, 64124>>, <<-142155, 50037>>, <<157080, -54931>>, <<157080, -80472>>, <<>>, <<0, -54931>>, <<0, 0>>, <<0, 54931>>, <<>>, <<157080, 80472>>, <<157080, 54931>>, <<142155, -50037>>, <<127680, -64124>>, <<90789, -70830>>, <<55357, -40236>>, <<46365, 0>>, <<55357, 40236>>, <<90789, 70830>>, <<127680, 64124>>, <<142155, 50037>>, <<133897, -40236>>, <<120748, -43946>>, <<101722, -40236>>, <<84758, -23888>>, <<78540, 0>>, <<84758, 23888>>, <<101722, 40236>>, <<120748, 43946>>, <<133897, 40236>>, <<131122, -31043>>, <<121648, -30594>>, <<110715, -25541>>, <<101722, -14695>>, <<98279, 0>>, <<101722, 14695>>, <<110715, 25541>>, <<121648, 30594>>, <<131122, 31043>>, <<131122, -23888>>, <<124526, -22009>>, <<117810, -17329>>, <<112656, -9642>>, <<110715, 0>>, <<112656, 9642>>, <<117810, 17329>>, <<124526, 22009>>, <<131122, 23888>>>>,
  sinh |-> <<<<150931, -342095>>, <<-25655, -375277>>, <<-195960, -316578>>, <<-318287, -180369>>, <<-362686, 0>>, <<-318287, 180369>>, <<-195960, 316578>>, <<-25655, 375277>>, <<150931, 342095>>, <<88609, -213904>>, <<-15062, -234652>>, <<-115045, -197948>>, <<-186862, -112781>>, <<-212928, 0>>, <<-186862, 112781>>, <<-115045, 197948>>, <<-15062, 234652>>, <<88609, 213904>>, <<48906, -140312>>, <<-8313, -153922>>, <<-63496, -129846>>, <<-103134, -73979>>, <<-117520, 0>>, <<-103134, 73979>>, <<-63496, 129846>>, <<-8313, 153922>>, <<48906, 140312>>, <<21685, -102535>>, <<-3686, -112480>>, <<-28155, -94886>>, <<-45730, -54061>>, <<-52110, 0>>, <<-45730, 54061>>, <<-28155, 94886>>, <<-3686, 112480>>, <<21685, 102535>>, <<0, -90930>>, <<0, -99749>>, <<0, -84147>>, <<0, -47943>>, <<0, 0>>, <<0, 47943>>, <<0, 84147>>, <<0, 99749>>, <<0, 90930>>, <<-21685, -102535>>, <<3686, -112480>>, <<28155, -94886>>, <<45730, -54061>>, <<52110, 0>>, <<45730, 54061>>, <<28155, 94886>>, <<3686, 112480>>, <<-21685, 102535>>, <<-48906, -140312>>, <<8313, -153922>>, <<63496, -129846>>, <<103134, -73979>>, <<117520, 0>>, <<103134, 73979>>, <<63496, 129846>>, <<8313, 153922>>, <<-48906, 140312>>, <<-88609, -213904>>, <<15062, -234652>>, <<115045, -197948>>, <<186862, -112781>>, <<212928, 0>>, <<186862, 112781>>, <<115045, 197948>>, <<15062, 234652>>, <<-88609, 213904>>, <<-150931, -342095>>, <<25655, -375277>>, <<195960, -316578>>, <<318287, -180369>>, <<362686, 0>>, <<318287, 180369>>, <<195960, 316578>>, <<25655, 375277>>, <<-150931, 342095>>>>,
  cosh |-> <<<<-156563, 329789>>, <<26613, 361778>>, <<203272, 305190>>, <<330164, 173881>>, <<376220, 0>>, <<330164, -173881>>, <<203272, -305190>>, <<26613, -361778>>, <<-156563, -329789>>, <<-97895, 193615>>, <<16640, 212395>>, <<127101, 179173>>, <<206443, 102083>>, <<235241, 0>>, <<206443, -102083>>, <<127101, -179173>>, <<16640, -212395>>, <<-97895, -193615>>, <<-64215, 106861>>, <<10915, 117226>>, <<83373, 98890>>, <<135418, 56342>>, <<154308, 0>>, <<135418, -56342>>, <<83373, -98890>>, <<10915, -117226>>, <<-64215, -106861>>, <<-46926, 47383>>, <<7977, 51979>>, <<60926, 43849>>, <<98958, 24983>>, <<112763, 0>>, <<98958, -24983>>, <<60926, -43849>>, <<7977, -51979>>, <<-46926, -47383>>, <<-41615, 0>>, <<7074, 0>>, <<54030, 0>>, <<87758, 0>>, <<100000, 0>>, <<87758, 0>>, <<54030, 0>>, <<7074, 0>>, <<-41615, 0>>, <<-46926, -47383>>, <<7977, -51979>>, <<60926, -43849>>, <<98958, -24983>>, <<112763, 0>>, <<98958, 24983>>, <<60926, 43849>>, <<7977, 51979>>, <<-46926, 47383>>, <<-64215, -106861>>, <<10915, -117226>>, <<83373, -98890>>, <<135418, -56342>>, <<154308, 0>>, <<135418, 56342>>, <<83373, 98890>>, <<10915, 117226>>, <<-64215, 106861>>, <<-97895, -193615>>, <<16640, -212395>>, <<127101, -179173>>, <<206443, -102083>>, <<235241, 0>>, <<206443, 102083>>, <<127101, 179173>>, <<16640, 212395>>, <<-97895, 193615>>, <<-156563, -329789>>, <<26613, -361778>>, <<203272, -305190>>, <<330164, -173881>>, <<376220, 0>>, <<330164, 173881>>, <<203272, 305190>>, <<26613, 361778>>, <<-156563, 329789>>>>,
  tanh |-> <<<<-102384, 2839>>, <<-103692, -536>>, <<-101479, -3381>>, <<-97994, -3022>>, <<-96403, 0>>, <<-97994, 3022>>, <<-101479, 3381>>, <<-103692, 536>>, <<-102384, -2839>>, <<-106414, 8039>>, <<-110357, -1555>>, <<-103796, -9421>>, <<-94437, -7932>>, <<-90515, 0>>, <<-94437, 7932>>, <<-103796, 9421>>, <<-110357, 1555>>, <<-106414, -8039>>, <<-116674, 24346>>, <<-130830, -5091>>, <<-108392, -27175>>, <<-84297, -19558>>, <<-76159, 0>>, <<-84297, 19558>>, <<-108392, 27175>>, <<-130830, 5091>>, <<-116674, -24346>>, <<-132129, 85088>>, <<-212480, -25515>>, <<-104283, -80688>>, <<-56408, -40390>>, <<-46212, 0>>, <<-56408, 40390>>, <<-104283, 80688>>, <<-212480, 25515>>, <<-132129, -85088>>, <<0, 218504>>, <<0, -1410142>>, <<0, -155741>>, <<0, -54630>>, <<0, 0>>, <<0, 54630>>, <<0, 155741>>, <<0, 1410142>>, <<0, -218504>>, <<132129, 85088>>, <<212480, -25515>>, <<104283, -80688>>, <<56408, -40390>>, <<46212, 0>>, <<56408, 40390>>, <<104283, 80688>>, <<212480, 25515>>, <<132129, -85088>>, <<116674, 24346>>, <<130830, -5091>>, <<108392, -27175>>, <<84297, -19558>>, <<76159, 0>>, <<84297, 19558>>, <<108392, 27175>>, <<130830, 5091>>, <<116674, -24346>>, <<106414, 8039>>, <<110357, -1555>>, <<103796, -9421>>, <<94437, -7932>>, <<90515, 0>>, <<94437, 7932>>, <<103796, 9421>>, <<110357, 1555>>, <<106414, -8039>>, <<102384, 2839>>, <<103692, -536>>, <<101479, -3381>>, <<97994, -3022>>, <<96403, 0>>, <<97994, 3022>>, <<101479, 3381>>, <<103692, 536>>, <<102384, -2839>>>>,
  asinh |-> <<<<-173432, -75425>>, <<-162249, -60651>>, <<-152857, -42708>>, <<-146572, -22102>>, <<-144364, 0>>, <<-146572, 22102>>, <<-152857, 42708>>, <<-162249, 60651>>, <<-173432, 75425>>, <<-160041, -88777>>, <<-144973, -73040>>, <<-131696, -52360>>, <<-122646, -27349>>, <<-119476, 0>>, <<-122646, 27349>>, <<-131696, 52360>>, <<-144973, 73040>>, <<-160041, 88777>>, <<-146935, -106344>>, <<-126048, -90638>>, <<-106128, -66624>>, <<-92613, -34944>>, <<-88137, 0>>, <<-92613, 34944>>, <<-106128, 66624>>, <<-126048, 90638>>, <<-146935, 106344>>, <<-136180, -129304>>, <<-106931, -117116>>, <<-73286, -89591>>, <<-53064, -45228>>, <<-48121, 0>>, <<-53064, 45228>>, <<-73286, 89591>>, <<-106931, 117116>>, <<-136180, 129304>>, <<131696, -157080>>, <<96242, -157080>>, <<0, -157080>>, <<0, -52360>>, <<0, 0>>, <<0, 52360>>, <<0, 157080>>, <<96242, 157080>>, <<131696, 157080>>, <<136180, -129304>>, <<106931, -117116>>, <<73286, -89591>>, <<53064, -45228>>, <<48121, 0>>, <<53064, 45228>>, <<73286, 89591>>, <<106931, 117116>>, <<136180, 129304>>, <<146935, -106344>>, <<126048, -90638>>, <<106128, -66624>>, <<92613, -34944>>, <<88137, 0>>, <<92613, 34944>>, <<106128, 66624>>, <<126048, 90638>>, <<146935, 106344>>, <<160041, -88777>>, <<144973, -73040>>, <<131696, -52360>>, <<122646, -27349>>, <<119476, 0>>, <<122646, 27349>>, <<131696, 52360>>, <<144973, 73040>>, <<160041, 88777>>, <<173432, -75425>>, <<162249, -60651>>, <<152857, -42708>>, <<146572, -22102>>, <<144364, 0>>, <<146572, 22102>>, <<152857, 42708>>, <<162249, 60651>>, <<173432, 75425>>>>,
  acosh |-> <<<<173432, -232505>>, <<160041, -245856>>, <<146935, -263424>>, <<136180, -286384>>, <<131696, 314159>>, <<136180, 286384>>, <<146935, 263424>>, <<160041, 245856>>, <<173432, 232505>>, <<162249, -217731>>, <<144973, -230120>>, <<126048, -247717>>, <<106931, -274195>>, <<96242, 314159>>, <<106931, 274195>>, <<126048, 247717>>, <<144973, 230120>>, <<162249, 217731>>, <<152857, -199787>>, <<131696, -209440>>, <<106128, -223704>>, <<73286, -246670>>, <<0, 314159>>, <<73286, 246670>>, <<106128, 223704>>, <<131696, 209440>>, <<152857, 199787>>, <<146572, -179181>>, <<122646, -184428>>, <<92613, -192024>>, <<53064, -202307>>, <<0, 209440>>, <<53064, 202307>>, <<92613, 192024>>, <<122646, 184428>>, <<146572, 179181>>, <<144364, -157080>>, <<119476, -157080>>, <<88137, -157080>>, <<48121, -157080>>, <<0, 157080>>, <<48121, 157080>>, <<88137, 157080>>, <<119476, 157080>>, <<144364, 157080>>, <<146572, -134978>>, <<122646, -129731>>, <<92613, -122136>>, <<53064, -111852>>, <<0, 104720>>, <<53064, 111852>>, <<92613, 122136>>, <<122646, 129731>>, <<146572, 134978>>, <<152857, -114372>>, <<131696, -104720>>, <<106128, -90456>>, <<73286, -67489>>, <<0, 0>>, <<73286, 67489>>, <<106128, 90456>>, <<131696, 104720>>, <<152857, 114372>>, <<162249, -96428>>, <<144973, -84040>>, <<126048, -66442>>, <<106931, -39964>>, <<96242, 0>>, <<106931, 39964>>, <<126048, 66442>>, <<144973, 84040>>, <<162249, 96428>>, <<173432, -81655>>, <<160041, -68303>>, <<146935, -50736>>, <<136180, -27775>>, <<131696, 0>>, <<136180, 27775>>, <<146935, 50736>>, <<160041, 68303>>, <<173432, 81655>>>>,
  atanh |-> <<<<-23888, -131122>>, <<-31043, -131122>>, <<-40236, -133897>>, <<-50037, -142155>>, <<-54931, 157080>>, <<-50037, 142155>>, <<-40236, 133897>>, <<-31043, 131122>>, <<-23888, 131122>>, <<-22009, -124526>>, <<-30594, -121648>>, <<-43946, -120748>>, <<-64124, -127680>>, <<-80472, 157080>>, <<-64124, 127680>>, <<-43946, 120748>>, <<-30594, 121648>>, <<-22009, 124526>>, <<-17329, -117810>>, <<-25541, -110715>>, <<-40236, -101722>>, <<-70830, -90789>>, <<>>, <<-70830, 90789>>, <<-40236, 101722>>, <<-25541, 110715>>, <<-17329, 117810>>, <<-9642, -112656>>, <<-14695, -101722>>, <<-23888, -84758>>, <<-40236, -55357>>, <<-54931, 0>>, <<-40236, 55357>>, <<-23888, 84758>>, <<-14695, 101722>>, <<-9642, 112656>>, <<0, -110715>>, <<0, -98279>>, <<0, -78540>>, <<0, -46365>>, <<0, 0>>, <<0, 46365>>, <<0, 78540>>, <<0, 98279>>, <<0, 110715>>, <<9642, -112656>>, <<14695, -101722>>, <<23888, -84758>>, <<40236, -55357>>, <<54931, 0>>, <<40236, 55357>>, <<23888, 84758>>, <<14695, 101722>>, <<9642, 112656>>, <<17329, -117810>>, <<25541, -110715>>, <<40236, -101722>>, <<70830, -90789>>, <<>>, <<70830, 90789>>, <<40236, 101722>>, <<25541, 110715>>, <<17329, 117810>>, <<22009, -124526>>, <<30594, -121648>>, <<43946, -120748>>, <<64124, -127680>>, <<80472, 157080>>, <<64124, 127680>>, <<43946, 120748>>, <<30594, 121648>>, <<22009, 124526>>, <<23888, -131122>>, <<31043, -131122>>, <<40236, -133897>>, <<50037, -142155>>, <<54931, 157080>>, <<50037, 142155>>, <<40236, 133897>>, <<31043, 131122>>, <<23888, 131122>>>>,
  pow2 |-> <<<<0, 800000>>, <<175000, 600000>>, <<300000, 400000>>, <<375000, 200000>>, <<400000, 0>>, <<375000, -200000>>, <<300000, -400000>>, <<175000, -600000>>, <<0, -800000>>, <<-175000, 600000>>, <<0, 450000>>, <<125000, 300000>>, <<200000, 150000>>, <<225000, 0>>, <<200000, -150000>>, <<125000, -300000>>, <<0, -450000>>, <<-175000, -600000>>, <<-300000, 400000>>, <<-125000, 300000>>, <<0, 200000>>, <<75000, 100000>>, <<100000, 0>>, <<75000, -100000>>, <<0, -200000>>, <<-125000, -300000>>, <<-300000, -400000>>, <<-375000, 200000>>, <<-200000, 150000>>, <<-75000, 100000>>, <<0, 50000>>, <<25000, 0>>, <<0, -50000>>, <<-75000, -100000>>, <<-200000, -150000>>, <<-375000, -200000>>, <<-400000, 0>>, <<-225000, 0>>, <<-100000, 0>>, <<-25000, 0>>, <<>>, <<-25000, 0>>, <<-100000, 0>>, <<-225000, 0>>, <<-400000, 0>>, <<-375000, -200000>>, <<-200000, -150000>>, <<-75000, -100000>>, <<0, -50000>>, <<25000, 0>>, <<0, 50000>>, <<-75000, 100000>>, <<-200000, 150000>>, <<-375000, 200000>>, <<-300000, -400000>>, <<-125000, -300000>>, <<0, -200000>>, <<75000, -100000>>, <<100000, 0>>, <<75000, 100000>>, <<0, 200000>>, <<-125000, 300000>>, <<-300000, 400000>>, <<-175000, -600000>>, <<0, -450000>>, <<125000, -300000>>, <<200000, -150000>>, <<225000, 0>>, <<200000, 150000>>, <<125000, 300000>>, <<0, 450000>>, <<-175000, 600000>>, <<0, -800000>>, <<175000, -600000>>, <<300000, -400000>>, <<375000, -200000>>, <<400000, 0>>, <<375000, 200000>>, <<300000, 400000>>, <<175000, 600000>>, <<0, 800000>>>>,
  powh1 |-> <<<<64359, -155377>>, <<50000, -150000>>, <<34356, -145535>>, <<17543, -142505>>, <<0, 141421>>, <<17543, 142505>>, <<34356, 145535>>, <<50000, 150000>>, <<64359, 155377>>, <<70711, -141421>>, <<55737, -134561>>, <<38909, -128506>>, <<20142, -124120>>, <<0, 122474>>, <<20142, 124120>>, <<38909, 128506>>, <<55737, 134561>>, <<70711, 141421>>, <<78615, -127202>>, <<63355, -118380>>, <<45509, -109868>>, <<24293, -102909>>, <<0, 100000>>, <<24293, 102909>>, <<45509, 109868>>, <<63355, 118380>>, <<78615, 127202>>, <<88362, -113171>>, <<73523, -102008>>, <<55589, -89945>>, <<32180, -77689>>, <<0, 70711>>, <<32180, 77689>>, <<55589, 89945>>, <<73523, 102008>>, <<88362, 113171>>, <<100000, -100000>>, <<86603, -86603>>, <<70711, -70711>>, <<50000, -50000>>, <<>>, <<50000, 50000>>, <<70711, 70711>>, <<86603, 86603>>, <<100000, 100000>>, <<113171, -88362>>, <<102008, -73523>>, <<89945, -55589>>, <<77689, -32180>>, <<70711, 0>>, <<77689, 32180>>, <<89945, 55589>>, <<102008, 73523>>, <<113171, 88362>>, <<127202, -78615>>, <<118380, -63355>>, <<109868, -45509>>, <<102909, -24293>>, <<100000, 0>>, <<102909, 24293>>, <<109868, 45509>>, <<118380, 63355>>, <<127202, 78615>>, <<141421, -70711>>, <<134561, -55737>>, <<128506, -38909>>, <<124120, -20142>>, <<122474, 0>>, <<124120, 20142>>, <<128506, 38909>>, <<134561, 55737>>, <<141421, 70711>>, <<155377, -64359>>, <<150000, -50000>>, <<145535, -34356>>, <<142505, -17543>>, <<141421, 0>>, <<142505, 17543>>, <<145535, 34356>>, <<150000, 50000>>, <<155377, 64359>>>>]
=============================================================================
