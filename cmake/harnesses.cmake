support(cameras_support SOURCES cameras.cpp make_pinhole.cpp make_omni.cpp make_pinhole_masked.cpp make_omni_masked.cpp
  make_sphere.cpp LINK aslam_cameras)
harness(K01 sm_kinematics)
harness(K02 sm_kinematics)
harness(K03 sm_kinematics)
harness(C01 cameras_support)
harness(C02 cameras_support)
harness(C04 cameras_support)
harness(C03 cameras_support sm_property_tree)
harness(C05 cameras_support aslam_cameras_april)
harness(A01 aslam_cameras_april aslam_apriltag2)
harness(C06 cameras_support)
harness(C07 cameras_support aslam_imgproc sm_property_tree)
harness(C08 cameras_support)
harness(T02 sm_timing)
harness(T01 aslam_time sm_timing sm_boost)
harness(S01 aslam_bsplines)
harness(S02 aslam_bsplines)
harness(S03 aslam_bsplines sm_kinematics)
harness(S04 aslam_splines aslam_bsplines aslam_backend aslam_backend_expressions sm_kinematics)
harness(B01 aslam_backend_expressions aslam_backend sm_kinematics)
harness(B02 aslam_backend_expressions aslam_backend aslam_incremental_calibration aslam_cameras aslam_time sm_kinematics sm_property_tree)
harness(B03 aslam_backend_expressions aslam_backend sm_kinematics sm_timing)
harness(B04 aslam_backend_expressions aslam_backend aslam_sparse_block_matrix sm_kinematics sm_property_tree)
harness(B05 aslam_backend_expressions aslam_backend aslam_sparse_block_matrix sm_kinematics sm_property_tree sm_timing)
harness(B06 aslam_backend_expressions aslam_backend aslam_sparse_block_matrix sm_kinematics sm_property_tree sm_timing)
harness(B07 aslam_backend_expressions aslam_backend aslam_sparse_block_matrix sm_kinematics sm_property_tree)
harness(F01 cameras_support kalibr aslam_splines aslam_bsplines aslam_cameras aslam_time aslam_backend_expressions aslam_backend sm_kinematics sm_property_tree sm_timing)
harness(I01 aslam_incremental_estimator aslam_incremental_calibration aslam_backend_expressions aslam_backend aslam_sparse_block_matrix sm_kinematics sm_property_tree sm_timing)
harness(U01 cameras_support sm_matrix_archive sm_property_tree sm_boost sm_kinematics aslam_cv_serialization aslam_cameras aslam_time sm_timing sm_logging boost_filesystem boost_system boost_serialization)
harness(U02 sm_logging sm_boost sm_timing sm_random sm_common boost_thread boost_system boost_filesystem boost_regex boost_serialization dl pthread)
set_source_files_properties(${CMAKE_CURRENT_SOURCE_DIR}/harness/I01_estimator.cpp PROPERTIES 
  COMPILE_FLAGS "-include ${SUITESPARSE5}/suitesparse5.h -idirafter ${SUITESPARSE5}")
