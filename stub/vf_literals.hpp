// literal suffixes _cppui_modularN
template<char... C> constexpr number<backends::cpp_int_modular_backend<1>> operator""_cppui_modular1() { return vf_literal<1, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<2>> operator""_cppui_modular2() { return vf_literal<2, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<3>> operator""_cppui_modular3() { return vf_literal<3, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<4>> operator""_cppui_modular4() { return vf_literal<4, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<5>> operator""_cppui_modular5() { return vf_literal<5, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<6>> operator""_cppui_modular6() { return vf_literal<6, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<7>> operator""_cppui_modular7() { return vf_literal<7, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<8>> operator""_cppui_modular8() { return vf_literal<8, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<9>> operator""_cppui_modular9() { return vf_literal<9, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<10>> operator""_cppui_modular10() { return vf_literal<10, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<11>> operator""_cppui_modular11() { return vf_literal<11, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<12>> operator""_cppui_modular12() { return vf_literal<12, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<13>> operator""_cppui_modular13() { return vf_literal<13, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<14>> operator""_cppui_modular14() { return vf_literal<14, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<15>> operator""_cppui_modular15() { return vf_literal<15, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<16>> operator""_cppui_modular16() { return vf_literal<16, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<17>> operator""_cppui_modular17() { return vf_literal<17, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<18>> operator""_cppui_modular18() { return vf_literal<18, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<19>> operator""_cppui_modular19() { return vf_literal<19, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<20>> operator""_cppui_modular20() { return vf_literal<20, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<21>> operator""_cppui_modular21() { return vf_literal<21, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<22>> operator""_cppui_modular22() { return vf_literal<22, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<23>> operator""_cppui_modular23() { return vf_literal<23, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<24>> operator""_cppui_modular24() { return vf_literal<24, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<25>> operator""_cppui_modular25() { return vf_literal<25, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<26>> operator""_cppui_modular26() { return vf_literal<26, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<27>> operator""_cppui_modular27() { return vf_literal<27, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<28>> operator""_cppui_modular28() { return vf_literal<28, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<29>> operator""_cppui_modular29() { return vf_literal<29, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<30>> operator""_cppui_modular30() { return vf_literal<30, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<31>> operator""_cppui_modular31() { return vf_literal<31, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<32>> operator""_cppui_modular32() { return vf_literal<32, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<33>> operator""_cppui_modular33() { return vf_literal<33, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<34>> operator""_cppui_modular34() { return vf_literal<34, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<35>> operator""_cppui_modular35() { return vf_literal<35, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<36>> operator""_cppui_modular36() { return vf_literal<36, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<37>> operator""_cppui_modular37() { return vf_literal<37, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<38>> operator""_cppui_modular38() { return vf_literal<38, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<39>> operator""_cppui_modular39() { return vf_literal<39, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<40>> operator""_cppui_modular40() { return vf_literal<40, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<41>> operator""_cppui_modular41() { return vf_literal<41, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<42>> operator""_cppui_modular42() { return vf_literal<42, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<43>> operator""_cppui_modular43() { return vf_literal<43, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<44>> operator""_cppui_modular44() { return vf_literal<44, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<45>> operator""_cppui_modular45() { return vf_literal<45, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<46>> operator""_cppui_modular46() { return vf_literal<46, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<47>> operator""_cppui_modular47() { return vf_literal<47, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<48>> operator""_cppui_modular48() { return vf_literal<48, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<49>> operator""_cppui_modular49() { return vf_literal<49, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<50>> operator""_cppui_modular50() { return vf_literal<50, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<51>> operator""_cppui_modular51() { return vf_literal<51, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<52>> operator""_cppui_modular52() { return vf_literal<52, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<53>> operator""_cppui_modular53() { return vf_literal<53, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<54>> operator""_cppui_modular54() { return vf_literal<54, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<55>> operator""_cppui_modular55() { return vf_literal<55, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<56>> operator""_cppui_modular56() { return vf_literal<56, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<57>> operator""_cppui_modular57() { return vf_literal<57, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<58>> operator""_cppui_modular58() { return vf_literal<58, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<59>> operator""_cppui_modular59() { return vf_literal<59, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<60>> operator""_cppui_modular60() { return vf_literal<60, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<61>> operator""_cppui_modular61() { return vf_literal<61, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<62>> operator""_cppui_modular62() { return vf_literal<62, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<63>> operator""_cppui_modular63() { return vf_literal<63, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<64>> operator""_cppui_modular64() { return vf_literal<64, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<65>> operator""_cppui_modular65() { return vf_literal<65, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<66>> operator""_cppui_modular66() { return vf_literal<66, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<67>> operator""_cppui_modular67() { return vf_literal<67, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<68>> operator""_cppui_modular68() { return vf_literal<68, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<69>> operator""_cppui_modular69() { return vf_literal<69, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<70>> operator""_cppui_modular70() { return vf_literal<70, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<71>> operator""_cppui_modular71() { return vf_literal<71, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<72>> operator""_cppui_modular72() { return vf_literal<72, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<73>> operator""_cppui_modular73() { return vf_literal<73, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<74>> operator""_cppui_modular74() { return vf_literal<74, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<75>> operator""_cppui_modular75() { return vf_literal<75, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<76>> operator""_cppui_modular76() { return vf_literal<76, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<77>> operator""_cppui_modular77() { return vf_literal<77, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<78>> operator""_cppui_modular78() { return vf_literal<78, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<79>> operator""_cppui_modular79() { return vf_literal<79, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<80>> operator""_cppui_modular80() { return vf_literal<80, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<81>> operator""_cppui_modular81() { return vf_literal<81, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<82>> operator""_cppui_modular82() { return vf_literal<82, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<83>> operator""_cppui_modular83() { return vf_literal<83, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<84>> operator""_cppui_modular84() { return vf_literal<84, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<85>> operator""_cppui_modular85() { return vf_literal<85, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<86>> operator""_cppui_modular86() { return vf_literal<86, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<87>> operator""_cppui_modular87() { return vf_literal<87, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<88>> operator""_cppui_modular88() { return vf_literal<88, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<89>> operator""_cppui_modular89() { return vf_literal<89, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<90>> operator""_cppui_modular90() { return vf_literal<90, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<91>> operator""_cppui_modular91() { return vf_literal<91, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<92>> operator""_cppui_modular92() { return vf_literal<92, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<93>> operator""_cppui_modular93() { return vf_literal<93, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<94>> operator""_cppui_modular94() { return vf_literal<94, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<95>> operator""_cppui_modular95() { return vf_literal<95, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<96>> operator""_cppui_modular96() { return vf_literal<96, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<97>> operator""_cppui_modular97() { return vf_literal<97, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<98>> operator""_cppui_modular98() { return vf_literal<98, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<99>> operator""_cppui_modular99() { return vf_literal<99, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<100>> operator""_cppui_modular100() { return vf_literal<100, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<101>> operator""_cppui_modular101() { return vf_literal<101, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<102>> operator""_cppui_modular102() { return vf_literal<102, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<103>> operator""_cppui_modular103() { return vf_literal<103, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<104>> operator""_cppui_modular104() { return vf_literal<104, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<105>> operator""_cppui_modular105() { return vf_literal<105, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<106>> operator""_cppui_modular106() { return vf_literal<106, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<107>> operator""_cppui_modular107() { return vf_literal<107, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<108>> operator""_cppui_modular108() { return vf_literal<108, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<109>> operator""_cppui_modular109() { return vf_literal<109, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<110>> operator""_cppui_modular110() { return vf_literal<110, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<111>> operator""_cppui_modular111() { return vf_literal<111, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<112>> operator""_cppui_modular112() { return vf_literal<112, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<113>> operator""_cppui_modular113() { return vf_literal<113, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<114>> operator""_cppui_modular114() { return vf_literal<114, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<115>> operator""_cppui_modular115() { return vf_literal<115, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<116>> operator""_cppui_modular116() { return vf_literal<116, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<117>> operator""_cppui_modular117() { return vf_literal<117, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<118>> operator""_cppui_modular118() { return vf_literal<118, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<119>> operator""_cppui_modular119() { return vf_literal<119, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<120>> operator""_cppui_modular120() { return vf_literal<120, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<121>> operator""_cppui_modular121() { return vf_literal<121, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<122>> operator""_cppui_modular122() { return vf_literal<122, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<123>> operator""_cppui_modular123() { return vf_literal<123, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<124>> operator""_cppui_modular124() { return vf_literal<124, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<125>> operator""_cppui_modular125() { return vf_literal<125, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<126>> operator""_cppui_modular126() { return vf_literal<126, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<127>> operator""_cppui_modular127() { return vf_literal<127, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<128>> operator""_cppui_modular128() { return vf_literal<128, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<129>> operator""_cppui_modular129() { return vf_literal<129, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<130>> operator""_cppui_modular130() { return vf_literal<130, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<131>> operator""_cppui_modular131() { return vf_literal<131, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<132>> operator""_cppui_modular132() { return vf_literal<132, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<133>> operator""_cppui_modular133() { return vf_literal<133, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<134>> operator""_cppui_modular134() { return vf_literal<134, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<135>> operator""_cppui_modular135() { return vf_literal<135, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<136>> operator""_cppui_modular136() { return vf_literal<136, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<137>> operator""_cppui_modular137() { return vf_literal<137, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<138>> operator""_cppui_modular138() { return vf_literal<138, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<139>> operator""_cppui_modular139() { return vf_literal<139, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<140>> operator""_cppui_modular140() { return vf_literal<140, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<141>> operator""_cppui_modular141() { return vf_literal<141, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<142>> operator""_cppui_modular142() { return vf_literal<142, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<143>> operator""_cppui_modular143() { return vf_literal<143, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<144>> operator""_cppui_modular144() { return vf_literal<144, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<145>> operator""_cppui_modular145() { return vf_literal<145, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<146>> operator""_cppui_modular146() { return vf_literal<146, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<147>> operator""_cppui_modular147() { return vf_literal<147, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<148>> operator""_cppui_modular148() { return vf_literal<148, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<149>> operator""_cppui_modular149() { return vf_literal<149, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<150>> operator""_cppui_modular150() { return vf_literal<150, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<151>> operator""_cppui_modular151() { return vf_literal<151, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<152>> operator""_cppui_modular152() { return vf_literal<152, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<153>> operator""_cppui_modular153() { return vf_literal<153, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<154>> operator""_cppui_modular154() { return vf_literal<154, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<155>> operator""_cppui_modular155() { return vf_literal<155, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<156>> operator""_cppui_modular156() { return vf_literal<156, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<157>> operator""_cppui_modular157() { return vf_literal<157, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<158>> operator""_cppui_modular158() { return vf_literal<158, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<159>> operator""_cppui_modular159() { return vf_literal<159, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<160>> operator""_cppui_modular160() { return vf_literal<160, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<161>> operator""_cppui_modular161() { return vf_literal<161, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<162>> operator""_cppui_modular162() { return vf_literal<162, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<163>> operator""_cppui_modular163() { return vf_literal<163, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<164>> operator""_cppui_modular164() { return vf_literal<164, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<165>> operator""_cppui_modular165() { return vf_literal<165, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<166>> operator""_cppui_modular166() { return vf_literal<166, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<167>> operator""_cppui_modular167() { return vf_literal<167, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<168>> operator""_cppui_modular168() { return vf_literal<168, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<169>> operator""_cppui_modular169() { return vf_literal<169, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<170>> operator""_cppui_modular170() { return vf_literal<170, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<171>> operator""_cppui_modular171() { return vf_literal<171, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<172>> operator""_cppui_modular172() { return vf_literal<172, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<173>> operator""_cppui_modular173() { return vf_literal<173, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<174>> operator""_cppui_modular174() { return vf_literal<174, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<175>> operator""_cppui_modular175() { return vf_literal<175, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<176>> operator""_cppui_modular176() { return vf_literal<176, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<177>> operator""_cppui_modular177() { return vf_literal<177, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<178>> operator""_cppui_modular178() { return vf_literal<178, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<179>> operator""_cppui_modular179() { return vf_literal<179, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<180>> operator""_cppui_modular180() { return vf_literal<180, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<181>> operator""_cppui_modular181() { return vf_literal<181, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<182>> operator""_cppui_modular182() { return vf_literal<182, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<183>> operator""_cppui_modular183() { return vf_literal<183, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<184>> operator""_cppui_modular184() { return vf_literal<184, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<185>> operator""_cppui_modular185() { return vf_literal<185, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<186>> operator""_cppui_modular186() { return vf_literal<186, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<187>> operator""_cppui_modular187() { return vf_literal<187, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<188>> operator""_cppui_modular188() { return vf_literal<188, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<189>> operator""_cppui_modular189() { return vf_literal<189, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<190>> operator""_cppui_modular190() { return vf_literal<190, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<191>> operator""_cppui_modular191() { return vf_literal<191, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<192>> operator""_cppui_modular192() { return vf_literal<192, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<193>> operator""_cppui_modular193() { return vf_literal<193, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<194>> operator""_cppui_modular194() { return vf_literal<194, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<195>> operator""_cppui_modular195() { return vf_literal<195, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<196>> operator""_cppui_modular196() { return vf_literal<196, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<197>> operator""_cppui_modular197() { return vf_literal<197, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<198>> operator""_cppui_modular198() { return vf_literal<198, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<199>> operator""_cppui_modular199() { return vf_literal<199, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<200>> operator""_cppui_modular200() { return vf_literal<200, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<201>> operator""_cppui_modular201() { return vf_literal<201, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<202>> operator""_cppui_modular202() { return vf_literal<202, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<203>> operator""_cppui_modular203() { return vf_literal<203, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<204>> operator""_cppui_modular204() { return vf_literal<204, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<205>> operator""_cppui_modular205() { return vf_literal<205, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<206>> operator""_cppui_modular206() { return vf_literal<206, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<207>> operator""_cppui_modular207() { return vf_literal<207, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<208>> operator""_cppui_modular208() { return vf_literal<208, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<209>> operator""_cppui_modular209() { return vf_literal<209, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<210>> operator""_cppui_modular210() { return vf_literal<210, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<211>> operator""_cppui_modular211() { return vf_literal<211, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<212>> operator""_cppui_modular212() { return vf_literal<212, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<213>> operator""_cppui_modular213() { return vf_literal<213, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<214>> operator""_cppui_modular214() { return vf_literal<214, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<215>> operator""_cppui_modular215() { return vf_literal<215, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<216>> operator""_cppui_modular216() { return vf_literal<216, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<217>> operator""_cppui_modular217() { return vf_literal<217, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<218>> operator""_cppui_modular218() { return vf_literal<218, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<219>> operator""_cppui_modular219() { return vf_literal<219, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<220>> operator""_cppui_modular220() { return vf_literal<220, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<221>> operator""_cppui_modular221() { return vf_literal<221, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<222>> operator""_cppui_modular222() { return vf_literal<222, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<223>> operator""_cppui_modular223() { return vf_literal<223, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<224>> operator""_cppui_modular224() { return vf_literal<224, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<225>> operator""_cppui_modular225() { return vf_literal<225, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<226>> operator""_cppui_modular226() { return vf_literal<226, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<227>> operator""_cppui_modular227() { return vf_literal<227, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<228>> operator""_cppui_modular228() { return vf_literal<228, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<229>> operator""_cppui_modular229() { return vf_literal<229, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<230>> operator""_cppui_modular230() { return vf_literal<230, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<231>> operator""_cppui_modular231() { return vf_literal<231, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<232>> operator""_cppui_modular232() { return vf_literal<232, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<233>> operator""_cppui_modular233() { return vf_literal<233, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<234>> operator""_cppui_modular234() { return vf_literal<234, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<235>> operator""_cppui_modular235() { return vf_literal<235, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<236>> operator""_cppui_modular236() { return vf_literal<236, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<237>> operator""_cppui_modular237() { return vf_literal<237, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<238>> operator""_cppui_modular238() { return vf_literal<238, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<239>> operator""_cppui_modular239() { return vf_literal<239, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<240>> operator""_cppui_modular240() { return vf_literal<240, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<241>> operator""_cppui_modular241() { return vf_literal<241, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<242>> operator""_cppui_modular242() { return vf_literal<242, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<243>> operator""_cppui_modular243() { return vf_literal<243, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<244>> operator""_cppui_modular244() { return vf_literal<244, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<245>> operator""_cppui_modular245() { return vf_literal<245, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<246>> operator""_cppui_modular246() { return vf_literal<246, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<247>> operator""_cppui_modular247() { return vf_literal<247, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<248>> operator""_cppui_modular248() { return vf_literal<248, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<249>> operator""_cppui_modular249() { return vf_literal<249, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<250>> operator""_cppui_modular250() { return vf_literal<250, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<251>> operator""_cppui_modular251() { return vf_literal<251, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<252>> operator""_cppui_modular252() { return vf_literal<252, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<253>> operator""_cppui_modular253() { return vf_literal<253, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<254>> operator""_cppui_modular254() { return vf_literal<254, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<255>> operator""_cppui_modular255() { return vf_literal<255, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<256>> operator""_cppui_modular256() { return vf_literal<256, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<257>> operator""_cppui_modular257() { return vf_literal<257, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<258>> operator""_cppui_modular258() { return vf_literal<258, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<259>> operator""_cppui_modular259() { return vf_literal<259, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<260>> operator""_cppui_modular260() { return vf_literal<260, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<261>> operator""_cppui_modular261() { return vf_literal<261, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<262>> operator""_cppui_modular262() { return vf_literal<262, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<263>> operator""_cppui_modular263() { return vf_literal<263, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<264>> operator""_cppui_modular264() { return vf_literal<264, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<265>> operator""_cppui_modular265() { return vf_literal<265, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<266>> operator""_cppui_modular266() { return vf_literal<266, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<267>> operator""_cppui_modular267() { return vf_literal<267, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<268>> operator""_cppui_modular268() { return vf_literal<268, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<269>> operator""_cppui_modular269() { return vf_literal<269, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<270>> operator""_cppui_modular270() { return vf_literal<270, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<271>> operator""_cppui_modular271() { return vf_literal<271, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<272>> operator""_cppui_modular272() { return vf_literal<272, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<273>> operator""_cppui_modular273() { return vf_literal<273, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<274>> operator""_cppui_modular274() { return vf_literal<274, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<275>> operator""_cppui_modular275() { return vf_literal<275, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<276>> operator""_cppui_modular276() { return vf_literal<276, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<277>> operator""_cppui_modular277() { return vf_literal<277, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<278>> operator""_cppui_modular278() { return vf_literal<278, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<279>> operator""_cppui_modular279() { return vf_literal<279, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<280>> operator""_cppui_modular280() { return vf_literal<280, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<281>> operator""_cppui_modular281() { return vf_literal<281, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<282>> operator""_cppui_modular282() { return vf_literal<282, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<283>> operator""_cppui_modular283() { return vf_literal<283, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<284>> operator""_cppui_modular284() { return vf_literal<284, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<285>> operator""_cppui_modular285() { return vf_literal<285, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<286>> operator""_cppui_modular286() { return vf_literal<286, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<287>> operator""_cppui_modular287() { return vf_literal<287, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<288>> operator""_cppui_modular288() { return vf_literal<288, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<289>> operator""_cppui_modular289() { return vf_literal<289, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<290>> operator""_cppui_modular290() { return vf_literal<290, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<291>> operator""_cppui_modular291() { return vf_literal<291, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<292>> operator""_cppui_modular292() { return vf_literal<292, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<293>> operator""_cppui_modular293() { return vf_literal<293, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<294>> operator""_cppui_modular294() { return vf_literal<294, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<295>> operator""_cppui_modular295() { return vf_literal<295, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<296>> operator""_cppui_modular296() { return vf_literal<296, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<297>> operator""_cppui_modular297() { return vf_literal<297, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<298>> operator""_cppui_modular298() { return vf_literal<298, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<299>> operator""_cppui_modular299() { return vf_literal<299, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<300>> operator""_cppui_modular300() { return vf_literal<300, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<301>> operator""_cppui_modular301() { return vf_literal<301, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<302>> operator""_cppui_modular302() { return vf_literal<302, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<303>> operator""_cppui_modular303() { return vf_literal<303, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<304>> operator""_cppui_modular304() { return vf_literal<304, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<305>> operator""_cppui_modular305() { return vf_literal<305, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<306>> operator""_cppui_modular306() { return vf_literal<306, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<307>> operator""_cppui_modular307() { return vf_literal<307, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<308>> operator""_cppui_modular308() { return vf_literal<308, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<309>> operator""_cppui_modular309() { return vf_literal<309, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<310>> operator""_cppui_modular310() { return vf_literal<310, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<311>> operator""_cppui_modular311() { return vf_literal<311, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<312>> operator""_cppui_modular312() { return vf_literal<312, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<313>> operator""_cppui_modular313() { return vf_literal<313, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<314>> operator""_cppui_modular314() { return vf_literal<314, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<315>> operator""_cppui_modular315() { return vf_literal<315, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<316>> operator""_cppui_modular316() { return vf_literal<316, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<317>> operator""_cppui_modular317() { return vf_literal<317, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<318>> operator""_cppui_modular318() { return vf_literal<318, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<319>> operator""_cppui_modular319() { return vf_literal<319, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<320>> operator""_cppui_modular320() { return vf_literal<320, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<321>> operator""_cppui_modular321() { return vf_literal<321, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<322>> operator""_cppui_modular322() { return vf_literal<322, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<323>> operator""_cppui_modular323() { return vf_literal<323, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<324>> operator""_cppui_modular324() { return vf_literal<324, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<325>> operator""_cppui_modular325() { return vf_literal<325, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<326>> operator""_cppui_modular326() { return vf_literal<326, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<327>> operator""_cppui_modular327() { return vf_literal<327, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<328>> operator""_cppui_modular328() { return vf_literal<328, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<329>> operator""_cppui_modular329() { return vf_literal<329, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<330>> operator""_cppui_modular330() { return vf_literal<330, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<331>> operator""_cppui_modular331() { return vf_literal<331, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<332>> operator""_cppui_modular332() { return vf_literal<332, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<333>> operator""_cppui_modular333() { return vf_literal<333, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<334>> operator""_cppui_modular334() { return vf_literal<334, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<335>> operator""_cppui_modular335() { return vf_literal<335, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<336>> operator""_cppui_modular336() { return vf_literal<336, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<337>> operator""_cppui_modular337() { return vf_literal<337, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<338>> operator""_cppui_modular338() { return vf_literal<338, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<339>> operator""_cppui_modular339() { return vf_literal<339, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<340>> operator""_cppui_modular340() { return vf_literal<340, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<341>> operator""_cppui_modular341() { return vf_literal<341, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<342>> operator""_cppui_modular342() { return vf_literal<342, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<343>> operator""_cppui_modular343() { return vf_literal<343, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<344>> operator""_cppui_modular344() { return vf_literal<344, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<345>> operator""_cppui_modular345() { return vf_literal<345, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<346>> operator""_cppui_modular346() { return vf_literal<346, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<347>> operator""_cppui_modular347() { return vf_literal<347, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<348>> operator""_cppui_modular348() { return vf_literal<348, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<349>> operator""_cppui_modular349() { return vf_literal<349, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<350>> operator""_cppui_modular350() { return vf_literal<350, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<351>> operator""_cppui_modular351() { return vf_literal<351, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<352>> operator""_cppui_modular352() { return vf_literal<352, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<353>> operator""_cppui_modular353() { return vf_literal<353, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<354>> operator""_cppui_modular354() { return vf_literal<354, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<355>> operator""_cppui_modular355() { return vf_literal<355, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<356>> operator""_cppui_modular356() { return vf_literal<356, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<357>> operator""_cppui_modular357() { return vf_literal<357, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<358>> operator""_cppui_modular358() { return vf_literal<358, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<359>> operator""_cppui_modular359() { return vf_literal<359, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<360>> operator""_cppui_modular360() { return vf_literal<360, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<361>> operator""_cppui_modular361() { return vf_literal<361, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<362>> operator""_cppui_modular362() { return vf_literal<362, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<363>> operator""_cppui_modular363() { return vf_literal<363, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<364>> operator""_cppui_modular364() { return vf_literal<364, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<365>> operator""_cppui_modular365() { return vf_literal<365, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<366>> operator""_cppui_modular366() { return vf_literal<366, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<367>> operator""_cppui_modular367() { return vf_literal<367, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<368>> operator""_cppui_modular368() { return vf_literal<368, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<369>> operator""_cppui_modular369() { return vf_literal<369, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<370>> operator""_cppui_modular370() { return vf_literal<370, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<371>> operator""_cppui_modular371() { return vf_literal<371, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<372>> operator""_cppui_modular372() { return vf_literal<372, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<373>> operator""_cppui_modular373() { return vf_literal<373, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<374>> operator""_cppui_modular374() { return vf_literal<374, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<375>> operator""_cppui_modular375() { return vf_literal<375, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<376>> operator""_cppui_modular376() { return vf_literal<376, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<377>> operator""_cppui_modular377() { return vf_literal<377, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<378>> operator""_cppui_modular378() { return vf_literal<378, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<379>> operator""_cppui_modular379() { return vf_literal<379, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<380>> operator""_cppui_modular380() { return vf_literal<380, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<381>> operator""_cppui_modular381() { return vf_literal<381, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<382>> operator""_cppui_modular382() { return vf_literal<382, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<383>> operator""_cppui_modular383() { return vf_literal<383, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<384>> operator""_cppui_modular384() { return vf_literal<384, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<385>> operator""_cppui_modular385() { return vf_literal<385, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<386>> operator""_cppui_modular386() { return vf_literal<386, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<387>> operator""_cppui_modular387() { return vf_literal<387, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<388>> operator""_cppui_modular388() { return vf_literal<388, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<389>> operator""_cppui_modular389() { return vf_literal<389, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<390>> operator""_cppui_modular390() { return vf_literal<390, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<391>> operator""_cppui_modular391() { return vf_literal<391, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<392>> operator""_cppui_modular392() { return vf_literal<392, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<393>> operator""_cppui_modular393() { return vf_literal<393, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<394>> operator""_cppui_modular394() { return vf_literal<394, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<395>> operator""_cppui_modular395() { return vf_literal<395, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<396>> operator""_cppui_modular396() { return vf_literal<396, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<397>> operator""_cppui_modular397() { return vf_literal<397, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<398>> operator""_cppui_modular398() { return vf_literal<398, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<399>> operator""_cppui_modular399() { return vf_literal<399, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<400>> operator""_cppui_modular400() { return vf_literal<400, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<401>> operator""_cppui_modular401() { return vf_literal<401, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<402>> operator""_cppui_modular402() { return vf_literal<402, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<403>> operator""_cppui_modular403() { return vf_literal<403, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<404>> operator""_cppui_modular404() { return vf_literal<404, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<405>> operator""_cppui_modular405() { return vf_literal<405, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<406>> operator""_cppui_modular406() { return vf_literal<406, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<407>> operator""_cppui_modular407() { return vf_literal<407, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<408>> operator""_cppui_modular408() { return vf_literal<408, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<409>> operator""_cppui_modular409() { return vf_literal<409, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<410>> operator""_cppui_modular410() { return vf_literal<410, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<411>> operator""_cppui_modular411() { return vf_literal<411, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<412>> operator""_cppui_modular412() { return vf_literal<412, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<413>> operator""_cppui_modular413() { return vf_literal<413, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<414>> operator""_cppui_modular414() { return vf_literal<414, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<415>> operator""_cppui_modular415() { return vf_literal<415, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<416>> operator""_cppui_modular416() { return vf_literal<416, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<417>> operator""_cppui_modular417() { return vf_literal<417, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<418>> operator""_cppui_modular418() { return vf_literal<418, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<419>> operator""_cppui_modular419() { return vf_literal<419, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<420>> operator""_cppui_modular420() { return vf_literal<420, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<421>> operator""_cppui_modular421() { return vf_literal<421, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<422>> operator""_cppui_modular422() { return vf_literal<422, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<423>> operator""_cppui_modular423() { return vf_literal<423, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<424>> operator""_cppui_modular424() { return vf_literal<424, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<425>> operator""_cppui_modular425() { return vf_literal<425, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<426>> operator""_cppui_modular426() { return vf_literal<426, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<427>> operator""_cppui_modular427() { return vf_literal<427, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<428>> operator""_cppui_modular428() { return vf_literal<428, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<429>> operator""_cppui_modular429() { return vf_literal<429, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<430>> operator""_cppui_modular430() { return vf_literal<430, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<431>> operator""_cppui_modular431() { return vf_literal<431, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<432>> operator""_cppui_modular432() { return vf_literal<432, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<433>> operator""_cppui_modular433() { return vf_literal<433, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<434>> operator""_cppui_modular434() { return vf_literal<434, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<435>> operator""_cppui_modular435() { return vf_literal<435, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<436>> operator""_cppui_modular436() { return vf_literal<436, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<437>> operator""_cppui_modular437() { return vf_literal<437, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<438>> operator""_cppui_modular438() { return vf_literal<438, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<439>> operator""_cppui_modular439() { return vf_literal<439, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<440>> operator""_cppui_modular440() { return vf_literal<440, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<441>> operator""_cppui_modular441() { return vf_literal<441, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<442>> operator""_cppui_modular442() { return vf_literal<442, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<443>> operator""_cppui_modular443() { return vf_literal<443, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<444>> operator""_cppui_modular444() { return vf_literal<444, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<445>> operator""_cppui_modular445() { return vf_literal<445, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<446>> operator""_cppui_modular446() { return vf_literal<446, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<447>> operator""_cppui_modular447() { return vf_literal<447, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<448>> operator""_cppui_modular448() { return vf_literal<448, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<449>> operator""_cppui_modular449() { return vf_literal<449, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<450>> operator""_cppui_modular450() { return vf_literal<450, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<451>> operator""_cppui_modular451() { return vf_literal<451, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<452>> operator""_cppui_modular452() { return vf_literal<452, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<453>> operator""_cppui_modular453() { return vf_literal<453, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<454>> operator""_cppui_modular454() { return vf_literal<454, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<455>> operator""_cppui_modular455() { return vf_literal<455, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<456>> operator""_cppui_modular456() { return vf_literal<456, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<457>> operator""_cppui_modular457() { return vf_literal<457, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<458>> operator""_cppui_modular458() { return vf_literal<458, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<459>> operator""_cppui_modular459() { return vf_literal<459, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<460>> operator""_cppui_modular460() { return vf_literal<460, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<461>> operator""_cppui_modular461() { return vf_literal<461, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<462>> operator""_cppui_modular462() { return vf_literal<462, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<463>> operator""_cppui_modular463() { return vf_literal<463, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<464>> operator""_cppui_modular464() { return vf_literal<464, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<465>> operator""_cppui_modular465() { return vf_literal<465, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<466>> operator""_cppui_modular466() { return vf_literal<466, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<467>> operator""_cppui_modular467() { return vf_literal<467, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<468>> operator""_cppui_modular468() { return vf_literal<468, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<469>> operator""_cppui_modular469() { return vf_literal<469, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<470>> operator""_cppui_modular470() { return vf_literal<470, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<471>> operator""_cppui_modular471() { return vf_literal<471, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<472>> operator""_cppui_modular472() { return vf_literal<472, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<473>> operator""_cppui_modular473() { return vf_literal<473, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<474>> operator""_cppui_modular474() { return vf_literal<474, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<475>> operator""_cppui_modular475() { return vf_literal<475, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<476>> operator""_cppui_modular476() { return vf_literal<476, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<477>> operator""_cppui_modular477() { return vf_literal<477, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<478>> operator""_cppui_modular478() { return vf_literal<478, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<479>> operator""_cppui_modular479() { return vf_literal<479, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<480>> operator""_cppui_modular480() { return vf_literal<480, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<481>> operator""_cppui_modular481() { return vf_literal<481, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<482>> operator""_cppui_modular482() { return vf_literal<482, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<483>> operator""_cppui_modular483() { return vf_literal<483, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<484>> operator""_cppui_modular484() { return vf_literal<484, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<485>> operator""_cppui_modular485() { return vf_literal<485, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<486>> operator""_cppui_modular486() { return vf_literal<486, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<487>> operator""_cppui_modular487() { return vf_literal<487, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<488>> operator""_cppui_modular488() { return vf_literal<488, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<489>> operator""_cppui_modular489() { return vf_literal<489, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<490>> operator""_cppui_modular490() { return vf_literal<490, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<491>> operator""_cppui_modular491() { return vf_literal<491, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<492>> operator""_cppui_modular492() { return vf_literal<492, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<493>> operator""_cppui_modular493() { return vf_literal<493, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<494>> operator""_cppui_modular494() { return vf_literal<494, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<495>> operator""_cppui_modular495() { return vf_literal<495, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<496>> operator""_cppui_modular496() { return vf_literal<496, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<497>> operator""_cppui_modular497() { return vf_literal<497, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<498>> operator""_cppui_modular498() { return vf_literal<498, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<499>> operator""_cppui_modular499() { return vf_literal<499, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<500>> operator""_cppui_modular500() { return vf_literal<500, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<501>> operator""_cppui_modular501() { return vf_literal<501, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<502>> operator""_cppui_modular502() { return vf_literal<502, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<503>> operator""_cppui_modular503() { return vf_literal<503, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<504>> operator""_cppui_modular504() { return vf_literal<504, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<505>> operator""_cppui_modular505() { return vf_literal<505, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<506>> operator""_cppui_modular506() { return vf_literal<506, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<507>> operator""_cppui_modular507() { return vf_literal<507, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<508>> operator""_cppui_modular508() { return vf_literal<508, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<509>> operator""_cppui_modular509() { return vf_literal<509, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<510>> operator""_cppui_modular510() { return vf_literal<510, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<511>> operator""_cppui_modular511() { return vf_literal<511, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<512>> operator""_cppui_modular512() { return vf_literal<512, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<513>> operator""_cppui_modular513() { return vf_literal<513, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<514>> operator""_cppui_modular514() { return vf_literal<514, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<515>> operator""_cppui_modular515() { return vf_literal<515, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<516>> operator""_cppui_modular516() { return vf_literal<516, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<517>> operator""_cppui_modular517() { return vf_literal<517, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<518>> operator""_cppui_modular518() { return vf_literal<518, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<519>> operator""_cppui_modular519() { return vf_literal<519, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<520>> operator""_cppui_modular520() { return vf_literal<520, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<521>> operator""_cppui_modular521() { return vf_literal<521, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<522>> operator""_cppui_modular522() { return vf_literal<522, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<523>> operator""_cppui_modular523() { return vf_literal<523, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<524>> operator""_cppui_modular524() { return vf_literal<524, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<525>> operator""_cppui_modular525() { return vf_literal<525, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<526>> operator""_cppui_modular526() { return vf_literal<526, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<527>> operator""_cppui_modular527() { return vf_literal<527, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<528>> operator""_cppui_modular528() { return vf_literal<528, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<529>> operator""_cppui_modular529() { return vf_literal<529, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<530>> operator""_cppui_modular530() { return vf_literal<530, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<531>> operator""_cppui_modular531() { return vf_literal<531, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<532>> operator""_cppui_modular532() { return vf_literal<532, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<533>> operator""_cppui_modular533() { return vf_literal<533, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<534>> operator""_cppui_modular534() { return vf_literal<534, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<535>> operator""_cppui_modular535() { return vf_literal<535, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<536>> operator""_cppui_modular536() { return vf_literal<536, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<537>> operator""_cppui_modular537() { return vf_literal<537, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<538>> operator""_cppui_modular538() { return vf_literal<538, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<539>> operator""_cppui_modular539() { return vf_literal<539, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<540>> operator""_cppui_modular540() { return vf_literal<540, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<541>> operator""_cppui_modular541() { return vf_literal<541, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<542>> operator""_cppui_modular542() { return vf_literal<542, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<543>> operator""_cppui_modular543() { return vf_literal<543, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<544>> operator""_cppui_modular544() { return vf_literal<544, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<545>> operator""_cppui_modular545() { return vf_literal<545, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<546>> operator""_cppui_modular546() { return vf_literal<546, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<547>> operator""_cppui_modular547() { return vf_literal<547, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<548>> operator""_cppui_modular548() { return vf_literal<548, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<549>> operator""_cppui_modular549() { return vf_literal<549, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<550>> operator""_cppui_modular550() { return vf_literal<550, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<551>> operator""_cppui_modular551() { return vf_literal<551, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<552>> operator""_cppui_modular552() { return vf_literal<552, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<553>> operator""_cppui_modular553() { return vf_literal<553, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<554>> operator""_cppui_modular554() { return vf_literal<554, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<555>> operator""_cppui_modular555() { return vf_literal<555, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<556>> operator""_cppui_modular556() { return vf_literal<556, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<557>> operator""_cppui_modular557() { return vf_literal<557, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<558>> operator""_cppui_modular558() { return vf_literal<558, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<559>> operator""_cppui_modular559() { return vf_literal<559, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<560>> operator""_cppui_modular560() { return vf_literal<560, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<561>> operator""_cppui_modular561() { return vf_literal<561, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<562>> operator""_cppui_modular562() { return vf_literal<562, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<563>> operator""_cppui_modular563() { return vf_literal<563, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<564>> operator""_cppui_modular564() { return vf_literal<564, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<565>> operator""_cppui_modular565() { return vf_literal<565, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<566>> operator""_cppui_modular566() { return vf_literal<566, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<567>> operator""_cppui_modular567() { return vf_literal<567, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<568>> operator""_cppui_modular568() { return vf_literal<568, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<569>> operator""_cppui_modular569() { return vf_literal<569, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<570>> operator""_cppui_modular570() { return vf_literal<570, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<571>> operator""_cppui_modular571() { return vf_literal<571, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<572>> operator""_cppui_modular572() { return vf_literal<572, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<573>> operator""_cppui_modular573() { return vf_literal<573, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<574>> operator""_cppui_modular574() { return vf_literal<574, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<575>> operator""_cppui_modular575() { return vf_literal<575, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<576>> operator""_cppui_modular576() { return vf_literal<576, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<577>> operator""_cppui_modular577() { return vf_literal<577, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<578>> operator""_cppui_modular578() { return vf_literal<578, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<579>> operator""_cppui_modular579() { return vf_literal<579, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<580>> operator""_cppui_modular580() { return vf_literal<580, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<581>> operator""_cppui_modular581() { return vf_literal<581, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<582>> operator""_cppui_modular582() { return vf_literal<582, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<583>> operator""_cppui_modular583() { return vf_literal<583, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<584>> operator""_cppui_modular584() { return vf_literal<584, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<585>> operator""_cppui_modular585() { return vf_literal<585, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<586>> operator""_cppui_modular586() { return vf_literal<586, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<587>> operator""_cppui_modular587() { return vf_literal<587, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<588>> operator""_cppui_modular588() { return vf_literal<588, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<589>> operator""_cppui_modular589() { return vf_literal<589, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<590>> operator""_cppui_modular590() { return vf_literal<590, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<591>> operator""_cppui_modular591() { return vf_literal<591, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<592>> operator""_cppui_modular592() { return vf_literal<592, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<593>> operator""_cppui_modular593() { return vf_literal<593, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<594>> operator""_cppui_modular594() { return vf_literal<594, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<595>> operator""_cppui_modular595() { return vf_literal<595, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<596>> operator""_cppui_modular596() { return vf_literal<596, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<597>> operator""_cppui_modular597() { return vf_literal<597, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<598>> operator""_cppui_modular598() { return vf_literal<598, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<599>> operator""_cppui_modular599() { return vf_literal<599, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<600>> operator""_cppui_modular600() { return vf_literal<600, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<601>> operator""_cppui_modular601() { return vf_literal<601, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<602>> operator""_cppui_modular602() { return vf_literal<602, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<603>> operator""_cppui_modular603() { return vf_literal<603, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<604>> operator""_cppui_modular604() { return vf_literal<604, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<605>> operator""_cppui_modular605() { return vf_literal<605, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<606>> operator""_cppui_modular606() { return vf_literal<606, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<607>> operator""_cppui_modular607() { return vf_literal<607, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<608>> operator""_cppui_modular608() { return vf_literal<608, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<609>> operator""_cppui_modular609() { return vf_literal<609, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<610>> operator""_cppui_modular610() { return vf_literal<610, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<611>> operator""_cppui_modular611() { return vf_literal<611, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<612>> operator""_cppui_modular612() { return vf_literal<612, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<613>> operator""_cppui_modular613() { return vf_literal<613, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<614>> operator""_cppui_modular614() { return vf_literal<614, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<615>> operator""_cppui_modular615() { return vf_literal<615, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<616>> operator""_cppui_modular616() { return vf_literal<616, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<617>> operator""_cppui_modular617() { return vf_literal<617, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<618>> operator""_cppui_modular618() { return vf_literal<618, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<619>> operator""_cppui_modular619() { return vf_literal<619, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<620>> operator""_cppui_modular620() { return vf_literal<620, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<621>> operator""_cppui_modular621() { return vf_literal<621, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<622>> operator""_cppui_modular622() { return vf_literal<622, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<623>> operator""_cppui_modular623() { return vf_literal<623, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<624>> operator""_cppui_modular624() { return vf_literal<624, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<625>> operator""_cppui_modular625() { return vf_literal<625, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<626>> operator""_cppui_modular626() { return vf_literal<626, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<627>> operator""_cppui_modular627() { return vf_literal<627, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<628>> operator""_cppui_modular628() { return vf_literal<628, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<629>> operator""_cppui_modular629() { return vf_literal<629, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<630>> operator""_cppui_modular630() { return vf_literal<630, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<631>> operator""_cppui_modular631() { return vf_literal<631, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<632>> operator""_cppui_modular632() { return vf_literal<632, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<633>> operator""_cppui_modular633() { return vf_literal<633, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<634>> operator""_cppui_modular634() { return vf_literal<634, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<635>> operator""_cppui_modular635() { return vf_literal<635, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<636>> operator""_cppui_modular636() { return vf_literal<636, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<637>> operator""_cppui_modular637() { return vf_literal<637, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<638>> operator""_cppui_modular638() { return vf_literal<638, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<639>> operator""_cppui_modular639() { return vf_literal<639, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<640>> operator""_cppui_modular640() { return vf_literal<640, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<641>> operator""_cppui_modular641() { return vf_literal<641, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<642>> operator""_cppui_modular642() { return vf_literal<642, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<643>> operator""_cppui_modular643() { return vf_literal<643, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<644>> operator""_cppui_modular644() { return vf_literal<644, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<645>> operator""_cppui_modular645() { return vf_literal<645, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<646>> operator""_cppui_modular646() { return vf_literal<646, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<647>> operator""_cppui_modular647() { return vf_literal<647, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<648>> operator""_cppui_modular648() { return vf_literal<648, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<649>> operator""_cppui_modular649() { return vf_literal<649, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<650>> operator""_cppui_modular650() { return vf_literal<650, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<651>> operator""_cppui_modular651() { return vf_literal<651, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<652>> operator""_cppui_modular652() { return vf_literal<652, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<653>> operator""_cppui_modular653() { return vf_literal<653, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<654>> operator""_cppui_modular654() { return vf_literal<654, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<655>> operator""_cppui_modular655() { return vf_literal<655, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<656>> operator""_cppui_modular656() { return vf_literal<656, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<657>> operator""_cppui_modular657() { return vf_literal<657, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<658>> operator""_cppui_modular658() { return vf_literal<658, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<659>> operator""_cppui_modular659() { return vf_literal<659, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<660>> operator""_cppui_modular660() { return vf_literal<660, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<661>> operator""_cppui_modular661() { return vf_literal<661, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<662>> operator""_cppui_modular662() { return vf_literal<662, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<663>> operator""_cppui_modular663() { return vf_literal<663, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<664>> operator""_cppui_modular664() { return vf_literal<664, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<665>> operator""_cppui_modular665() { return vf_literal<665, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<666>> operator""_cppui_modular666() { return vf_literal<666, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<667>> operator""_cppui_modular667() { return vf_literal<667, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<668>> operator""_cppui_modular668() { return vf_literal<668, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<669>> operator""_cppui_modular669() { return vf_literal<669, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<670>> operator""_cppui_modular670() { return vf_literal<670, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<671>> operator""_cppui_modular671() { return vf_literal<671, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<672>> operator""_cppui_modular672() { return vf_literal<672, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<673>> operator""_cppui_modular673() { return vf_literal<673, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<674>> operator""_cppui_modular674() { return vf_literal<674, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<675>> operator""_cppui_modular675() { return vf_literal<675, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<676>> operator""_cppui_modular676() { return vf_literal<676, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<677>> operator""_cppui_modular677() { return vf_literal<677, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<678>> operator""_cppui_modular678() { return vf_literal<678, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<679>> operator""_cppui_modular679() { return vf_literal<679, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<680>> operator""_cppui_modular680() { return vf_literal<680, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<681>> operator""_cppui_modular681() { return vf_literal<681, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<682>> operator""_cppui_modular682() { return vf_literal<682, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<683>> operator""_cppui_modular683() { return vf_literal<683, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<684>> operator""_cppui_modular684() { return vf_literal<684, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<685>> operator""_cppui_modular685() { return vf_literal<685, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<686>> operator""_cppui_modular686() { return vf_literal<686, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<687>> operator""_cppui_modular687() { return vf_literal<687, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<688>> operator""_cppui_modular688() { return vf_literal<688, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<689>> operator""_cppui_modular689() { return vf_literal<689, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<690>> operator""_cppui_modular690() { return vf_literal<690, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<691>> operator""_cppui_modular691() { return vf_literal<691, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<692>> operator""_cppui_modular692() { return vf_literal<692, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<693>> operator""_cppui_modular693() { return vf_literal<693, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<694>> operator""_cppui_modular694() { return vf_literal<694, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<695>> operator""_cppui_modular695() { return vf_literal<695, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<696>> operator""_cppui_modular696() { return vf_literal<696, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<697>> operator""_cppui_modular697() { return vf_literal<697, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<698>> operator""_cppui_modular698() { return vf_literal<698, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<699>> operator""_cppui_modular699() { return vf_literal<699, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<700>> operator""_cppui_modular700() { return vf_literal<700, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<701>> operator""_cppui_modular701() { return vf_literal<701, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<702>> operator""_cppui_modular702() { return vf_literal<702, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<703>> operator""_cppui_modular703() { return vf_literal<703, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<704>> operator""_cppui_modular704() { return vf_literal<704, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<705>> operator""_cppui_modular705() { return vf_literal<705, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<706>> operator""_cppui_modular706() { return vf_literal<706, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<707>> operator""_cppui_modular707() { return vf_literal<707, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<708>> operator""_cppui_modular708() { return vf_literal<708, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<709>> operator""_cppui_modular709() { return vf_literal<709, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<710>> operator""_cppui_modular710() { return vf_literal<710, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<711>> operator""_cppui_modular711() { return vf_literal<711, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<712>> operator""_cppui_modular712() { return vf_literal<712, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<713>> operator""_cppui_modular713() { return vf_literal<713, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<714>> operator""_cppui_modular714() { return vf_literal<714, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<715>> operator""_cppui_modular715() { return vf_literal<715, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<716>> operator""_cppui_modular716() { return vf_literal<716, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<717>> operator""_cppui_modular717() { return vf_literal<717, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<718>> operator""_cppui_modular718() { return vf_literal<718, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<719>> operator""_cppui_modular719() { return vf_literal<719, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<720>> operator""_cppui_modular720() { return vf_literal<720, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<721>> operator""_cppui_modular721() { return vf_literal<721, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<722>> operator""_cppui_modular722() { return vf_literal<722, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<723>> operator""_cppui_modular723() { return vf_literal<723, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<724>> operator""_cppui_modular724() { return vf_literal<724, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<725>> operator""_cppui_modular725() { return vf_literal<725, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<726>> operator""_cppui_modular726() { return vf_literal<726, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<727>> operator""_cppui_modular727() { return vf_literal<727, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<728>> operator""_cppui_modular728() { return vf_literal<728, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<729>> operator""_cppui_modular729() { return vf_literal<729, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<730>> operator""_cppui_modular730() { return vf_literal<730, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<731>> operator""_cppui_modular731() { return vf_literal<731, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<732>> operator""_cppui_modular732() { return vf_literal<732, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<733>> operator""_cppui_modular733() { return vf_literal<733, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<734>> operator""_cppui_modular734() { return vf_literal<734, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<735>> operator""_cppui_modular735() { return vf_literal<735, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<736>> operator""_cppui_modular736() { return vf_literal<736, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<737>> operator""_cppui_modular737() { return vf_literal<737, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<738>> operator""_cppui_modular738() { return vf_literal<738, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<739>> operator""_cppui_modular739() { return vf_literal<739, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<740>> operator""_cppui_modular740() { return vf_literal<740, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<741>> operator""_cppui_modular741() { return vf_literal<741, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<742>> operator""_cppui_modular742() { return vf_literal<742, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<743>> operator""_cppui_modular743() { return vf_literal<743, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<744>> operator""_cppui_modular744() { return vf_literal<744, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<745>> operator""_cppui_modular745() { return vf_literal<745, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<746>> operator""_cppui_modular746() { return vf_literal<746, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<747>> operator""_cppui_modular747() { return vf_literal<747, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<748>> operator""_cppui_modular748() { return vf_literal<748, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<749>> operator""_cppui_modular749() { return vf_literal<749, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<750>> operator""_cppui_modular750() { return vf_literal<750, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<751>> operator""_cppui_modular751() { return vf_literal<751, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<752>> operator""_cppui_modular752() { return vf_literal<752, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<753>> operator""_cppui_modular753() { return vf_literal<753, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<754>> operator""_cppui_modular754() { return vf_literal<754, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<755>> operator""_cppui_modular755() { return vf_literal<755, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<756>> operator""_cppui_modular756() { return vf_literal<756, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<757>> operator""_cppui_modular757() { return vf_literal<757, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<758>> operator""_cppui_modular758() { return vf_literal<758, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<759>> operator""_cppui_modular759() { return vf_literal<759, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<760>> operator""_cppui_modular760() { return vf_literal<760, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<761>> operator""_cppui_modular761() { return vf_literal<761, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<762>> operator""_cppui_modular762() { return vf_literal<762, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<763>> operator""_cppui_modular763() { return vf_literal<763, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<764>> operator""_cppui_modular764() { return vf_literal<764, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<765>> operator""_cppui_modular765() { return vf_literal<765, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<766>> operator""_cppui_modular766() { return vf_literal<766, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<767>> operator""_cppui_modular767() { return vf_literal<767, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<768>> operator""_cppui_modular768() { return vf_literal<768, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<769>> operator""_cppui_modular769() { return vf_literal<769, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<770>> operator""_cppui_modular770() { return vf_literal<770, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<771>> operator""_cppui_modular771() { return vf_literal<771, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<772>> operator""_cppui_modular772() { return vf_literal<772, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<773>> operator""_cppui_modular773() { return vf_literal<773, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<774>> operator""_cppui_modular774() { return vf_literal<774, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<775>> operator""_cppui_modular775() { return vf_literal<775, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<776>> operator""_cppui_modular776() { return vf_literal<776, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<777>> operator""_cppui_modular777() { return vf_literal<777, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<778>> operator""_cppui_modular778() { return vf_literal<778, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<779>> operator""_cppui_modular779() { return vf_literal<779, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<780>> operator""_cppui_modular780() { return vf_literal<780, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<781>> operator""_cppui_modular781() { return vf_literal<781, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<782>> operator""_cppui_modular782() { return vf_literal<782, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<783>> operator""_cppui_modular783() { return vf_literal<783, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<784>> operator""_cppui_modular784() { return vf_literal<784, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<785>> operator""_cppui_modular785() { return vf_literal<785, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<786>> operator""_cppui_modular786() { return vf_literal<786, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<787>> operator""_cppui_modular787() { return vf_literal<787, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<788>> operator""_cppui_modular788() { return vf_literal<788, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<789>> operator""_cppui_modular789() { return vf_literal<789, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<790>> operator""_cppui_modular790() { return vf_literal<790, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<791>> operator""_cppui_modular791() { return vf_literal<791, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<792>> operator""_cppui_modular792() { return vf_literal<792, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<793>> operator""_cppui_modular793() { return vf_literal<793, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<794>> operator""_cppui_modular794() { return vf_literal<794, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<795>> operator""_cppui_modular795() { return vf_literal<795, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<796>> operator""_cppui_modular796() { return vf_literal<796, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<797>> operator""_cppui_modular797() { return vf_literal<797, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<798>> operator""_cppui_modular798() { return vf_literal<798, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<799>> operator""_cppui_modular799() { return vf_literal<799, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<800>> operator""_cppui_modular800() { return vf_literal<800, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<859>> operator""_cppui_modular859() { return vf_literal<859, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<860>> operator""_cppui_modular860() { return vf_literal<860, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<893>> operator""_cppui_modular893() { return vf_literal<893, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<894>> operator""_cppui_modular894() { return vf_literal<894, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<913>> operator""_cppui_modular913() { return vf_literal<913, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<1024>> operator""_cppui_modular1024() { return vf_literal<1024, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<1490>> operator""_cppui_modular1490() { return vf_literal<1490, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<1536>> operator""_cppui_modular1536() { return vf_literal<1536, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<2048>> operator""_cppui_modular2048() { return vf_literal<2048, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<2790>> operator""_cppui_modular2790() { return vf_literal<2790, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<3072>> operator""_cppui_modular3072() { return vf_literal<3072, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<4096>> operator""_cppui_modular4096() { return vf_literal<4096, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<4269>> operator""_cppui_modular4269() { return vf_literal<4269, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<4314>> operator""_cppui_modular4314() { return vf_literal<4314, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<6144>> operator""_cppui_modular6144() { return vf_literal<6144, C...>(); }
template<char... C> constexpr number<backends::cpp_int_modular_backend<8192>> operator""_cppui_modular8192() { return vf_literal<8192, C...>(); }
