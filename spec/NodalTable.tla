------------------------------ MODULE NodalTable ------------------------------
(* Parents (name, seven coefficients), compounds (name, exponent/multiple of each *)
(* parent, modulation modelled in the OTIS/FES/GOT conventions, and in perth3)     *)
(* and published speeds in degrees per hour (units of 1e-6).  Read off the naming *)
(* convention of compound tides and published tables, not off the code.            *)
EXTENDS Integers, Sequences
Parents == <<
  <<"m2", <<2, 0, 0, 0, 0, 0, 0>> >>,
  <<"s2", <<2, 2, -2, 0, 0, 0, 0>> >>,
  <<"n2", <<2, -1, 0, 1, 0, 0, 0>> >>,
  <<"k1", <<1, 1, 0, 0, 0, 0, 1>> >>,
  <<"k2", <<2, 2, 0, 0, 0, 0, 0>> >>,
  <<"o1", <<1, -1, 0, 0, 0, 0, -1>> >>,
  <<"q1", <<1, -2, 0, 1, 0, 0, -1>> >>,
  <<"p1", <<1, 1, -2, 0, 0, 0, -1>> >>,
  <<"l2", <<2, 1, 0, -1, 0, 0, 2>> >>,
  <<"nu2", <<2, -1, 2, -1, 0, 0, 0>> >>,
  <<"mu2", <<2, -2, 2, 0, 0, 0, 0>> >>,
  <<"t2", <<2, 2, -3, 0, 0, 1, 0>> >>,
  <<"r2", <<2, 2, -1, 0, 0, -1, 2>> >>,
  <<"j1", <<1, 2, 0, -1, 0, 0, 1>> >>,
  <<"oo1", <<1, 3, 0, 0, 0, 0, 1>> >> >>
Compounds == <<
  <<"sn0", <<0, 1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2smn0", <<-1, 2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2qj1", <<0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, -1, 0>>, FALSE, FALSE>>,
  <<"2qk1", <<0, 0, 0, -1, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2qp1", <<0, 0, 0, 0, 0, 0, 2, -1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2oj1", <<0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, -1, 0>>, FALSE, FALSE>>,
  <<"2ok1", <<0, 0, 0, -1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"np1", <<0, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"opk1", <<0, 0, 0, -1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mp1", <<1, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"pqo1", <<0, 0, 0, 0, 0, -1, 1, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2oq1", <<0, 0, 0, 0, 0, 2, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"no1", <<0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2pk1", <<0, 0, 0, -1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"tk1", <<0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0>>, TRUE, TRUE>>,
  <<"rp1", <<0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1, 0, 0>>, TRUE, TRUE>>,
  <<"kp1", <<0, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"opq1", <<0, 0, 0, 0, 0, 1, -1, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mq1", <<1, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2po1", <<0, 0, 0, 0, 0, -1, 0, 2, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"so1", <<0, 1, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"kpq1", <<0, 0, 0, 1, 0, 0, -1, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"kq1", <<0, 0, 0, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2jo1", <<0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 2, 0>>, FALSE, FALSE>>,
  <<"kjq1", <<0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 1, 0>>, TRUE, TRUE>>,
  <<"2ook1", <<0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2>>, TRUE, TRUE>>,
  <<"2oop1", <<0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 2>>, TRUE, TRUE>>,
  <<"2jq1", <<0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 2, 0>>, FALSE, FALSE>>,
  <<"2mn2s2", <<2, -2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nk2", <<0, 0, 2, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3m(sk)2", <<3, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mks2", <<3, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ns2", <<0, -1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3m2s2", <<3, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"oq2", <<0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnk2", <<1, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mns2", <<1, -1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnus2", <<1, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"2ml2s2", <<2, -2, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnk2s2", <<1, -2, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ms2k2", <<2, 1, 0, 0, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mk2", <<2, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nm2", <<-1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ms2", <<2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mk2s2", <<2, -2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"nsk2", <<0, 1, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"snk2", <<0, 1, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ml2", <<2, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mmun2", <<1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"3m(sn)2", <<3, -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"nks2", <<0, -1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"nkp2", <<0, 0, 1, 1, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mkl2s2", <<1, -2, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2kn2s2", <<0, -2, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msk2", <<1, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"op2", <<0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"ko2", <<0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mks2", <<1, -1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"m2(ks)2", <<1, -2, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2snmk2", <<-1, 2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sn(mk)2", <<-1, 2, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"snm2", <<-1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mn2", <<2, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"nkm2", <<-1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2sk2", <<0, 2, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"kp2", <<0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ks2", <<0, -1, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2pmn2", <<1, 0, -1, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msnu2", <<1, 1, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msn2", <<1, 1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mkn2", <<1, 0, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"kj2", <<0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0>>, TRUE, TRUE>>,
  <<"2kmsn2", <<1, -1, -1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2km(sn)2", <<1, -1, -1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sm2", <<-1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2ms2n2", <<2, 1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"skm2", <<-1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2j2", <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0>>, FALSE, FALSE>>,
  <<"2snu2", <<0, 2, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3(sm)n2", <<-3, 3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sn2", <<0, 2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"skn2", <<0, 1, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2kn2", <<0, 0, -1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3s2m2", <<-2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sk2m2", <<-2, 2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2oq3", <<0, 0, 0, 0, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"nq3", <<0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"muo3", <<0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mq3", <<1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"no3", <<0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnp3", <<1, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2op3", <<0, 0, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mo3", <<1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mk3", <<2, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2no3", <<0, 0, 2, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nkm3", <<-1, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mp3", <<2, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2oj3", <<0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0>>, FALSE, FALSE>>,
  <<"nk3", <<0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mp3", <<1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"so3", <<0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"mk3", <<1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mkp3", <<1, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"nso3", <<0, 1, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mq3", <<2, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"sp3", <<0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"sk3", <<0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"2so3", <<0, 2, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2jp3", <<0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 2, 0>>, FALSE, FALSE>>,
  <<"kso3", <<0, 1, 0, 0, 1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ko3", <<0, 0, 0, 0, 2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sq3", <<0, 2, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2qm4", <<1, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"4m2s4", <<4, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mnk4", <<2, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"moq4", <<1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mnus4", <<2, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mk4", <<3, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2om4", <<1, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"n4", <<0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3ms4", <<3, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"msnk4", <<1, 1, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mpq4", <<1, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mn4", <<1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnu4", <<1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"2mls4", <<2, -1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnks4", <<1, -1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2msk4", <<2, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mop4", <<1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"m4", <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mks4", <<2, -1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"sn4", <<0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"3mn4", <<3, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"ml4", <<1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"nk4", <<0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2smk4", <<1, 2, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2pm4", <<1, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mt4", <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0>>, FALSE, FALSE>>,
  <<"ms4", <<1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"mr4", <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0>>, FALSE, FALSE>>,
  <<"mk4", <<1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2snm4", <<-1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2msn4", <<2, 1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"sl4", <<0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mkn4", <<2, 0, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mkj4", <<1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0>>, FALSE, FALSE>>,
  <<"st4", <<0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0>>, TRUE, TRUE>>,
  <<"s4", <<0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"sk4", <<0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"3sm4", <<-1, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(kj)4", <<0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0>>, FALSE, FALSE>>,
  <<"2no5", <<0, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mno5", <<1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mq5", <<2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mo5", <<2, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nk5", <<0, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mp5", <<3, 0, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"nso5", <<0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mnk5", <<1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mso5", <<1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mp5", <<2, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mk5", <<2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"snk5", <<0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mq5", <<3, 0, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msp5", <<1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msk5", <<1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3km5", <<1, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2sp5", <<0, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2sk5", <<0, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"2(mn)k6", <<2, 0, 2, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"5mks6", <<5, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(mn)s6", <<2, -1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"5m2s6", <<5, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mnk6", <<3, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"n6", <<0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mns6", <<3, -1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2nmls6", <<1, -1, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3nks6", <<0, -1, 3, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mnus6", <<3, -1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"4mk6", <<4, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2nm6", <<1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"m2n6", <<1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"4ms6", <<4, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mlns6", <<2, -1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mnls6", <<2, -1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nmks6", <<1, -1, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2msnk6", <<2, 1, 1, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mnu6", <<2, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"3mls6", <<3, -1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mnks6", <<2, -1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3msk6", <<3, 1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"m6", <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nk6", <<0, 0, 2, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mks6", <<3, -1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msn6", <<1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mn6", <<4, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2ml6", <<2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mnk6", <<1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mkn6", <<1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"mknu6", <<1, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(ms)k6", <<2, 2, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mt6", <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2ms6", <<2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mr6", <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0>>, TRUE, TRUE>>,
  <<"2mk6", <<2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2sn6", <<0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"3msn6", <<3, 1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"msl6", <<1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"snk6", <<0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"mkl6", <<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mkn6", <<3, 0, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2sm6", <<1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"msk6", <<1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2km6", <<1, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(ms)n6", <<2, 2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mskn6", <<2, 1, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"s6", <<0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2sk6", <<0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"4sm6", <<-1, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2mno7", <<2, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mk7", <<4, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mo7", <<3, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2nmk7", <<1, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mp7", <<3, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mso7", <<2, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mk7", <<3, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2msk7", <<2, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"msko7", <<1, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3sp7", <<0, 3, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3sk7", <<0, 3, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3m2ns8", <<3, -1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"4mns8", <<4, -1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"5mk8", <<5, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(mn)8", <<2, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"5ms8", <<5, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3mnu8", <<3, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>, TRUE, FALSE>>,
  <<"4mls8", <<4, -1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"m8", <<4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2msn8", <<2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3ml8", <<3, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2mnk8", <<2, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mt8", <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3ms8", <<3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mk8", <<3, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2smn8", <<1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2msl8", <<2, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"msnk8", <<1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2(ms)8", <<2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2msk8", <<2, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2(mk)8", <<2, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"s8", <<0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mo9", <<4, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"2(mn)k9", <<2, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"2m2nk9", <<2, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3mnk9", <<3, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mp9", <<4, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"4mk9", <<4, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3msk9", <<3, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mn10", <<4, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"m10", <<5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3msn10", <<3, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4ms10", <<4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mk10", <<4, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"3msl10", <<3, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3m2s10", <<3, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"3msk10", <<3, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>>,
  <<"s10", <<0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4msk11", <<4, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"5mn12", <<5, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"m12", <<6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4msn12", <<4, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4mns12", <<4, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"5ms12", <<5, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4msl12", <<4, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"4m2s12", <<4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"s12", <<0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"m14", <<7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"5msn14", <<5, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"6ms14", <<6, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, TRUE, TRUE>>,
  <<"5m2s14", <<5, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, FALSE, FALSE>> >>
Speeds == <<
  <<"m2", 28984104>>,
  <<"s2", 30000000>>,
  <<"n2", 28439730>>,
  <<"k1", 15041069>>,
  <<"m4", 57968208>>,
  <<"o1", 13943036>>,
  <<"m6", 86952313>>,
  <<"mk3", 44025173>>,
  <<"s4", 60000000>>,
  <<"mn4", 57423834>>,
  <<"nu2", 28512583>>,
  <<"s6", 90000000>>,
  <<"mu2", 27968208>>,
  <<"oo1", 16139102>>,
  <<"lambda2", 29455625>>,
  <<"s1", 15000000>>,
  <<"m1a", 14496694>>,
  <<"m1b", 14487410>>,
  <<"j1", 15585443>>,
  <<"mm", 544375>>,
  <<"ssa", 82137>>,
  <<"sa", 41069>>,
  <<"msf", 1015896>>,
  <<"mf", 1098033>>,
  <<"rho1", 13471514>>,
  <<"q1", 13398661>>,
  <<"t2", 29958933>>,
  <<"r2", 30041067>>,
  <<"p1", 14958931>>,
  <<"m3", 43476156>>,
  <<"l2", 29528479>>,
  <<"k2", 30082137>>,
  <<"m8", 115936417>>,
  <<"ms4", 58984104>>,
  <<"sigma1", 12927140>>,
  <<"pi1", 14917865>>,
  <<"phi1", 15123206>>,
  <<"theta1", 15512590>>,
  <<"chi1", 14569548>>,
  <<"psi1", 15082135>>,
  <<"eta2", 30626512>>,
  <<"msqm", 2113929>>,
  <<"mtm", 1642408>>,
  <<"eps2", 27423834>>,
  <<"mns2", 27423834>>,
  <<"2n2", 27895355>>,
  <<"2q1", 12854286>>,
  <<"2sm2", 31015896>>,
  <<"2mk3", 42927140>> >>
=============================================================================
